//! What a styled value can do follows from what its inner value can do, for every kind of inner value.
// editions: 2021
#![allow(dead_code)]
use colorz::{ansi, css, rgb, xterm, Color, Colorize, NoColor, OptionalColor, Style, StyledValue, WriteColor};
use core::fmt::{self, Binary, Debug, Display, LowerExp, LowerHex, Octal, Pointer, UpperExp, UpperHex};

struct Plain;
struct Shown;
impl Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("shown")
    }
}
struct Local(*const u8);
fn styled<T>(x: T) -> StyledValue<T, ansi::Red, css::Teal, NoColor> {
    StyledValue::new(x, Style::new().fg(ansi::Red).bg(css::Teal), None)
}
fn need_display<T: Display>(_: &T) {}
fn need_debug<T: Debug>(_: &T) {}
fn need_copy<T: Copy>(_: &T) {}
fn need_clone<T: Clone>(_: &T) {}
fn need_send<T: Send>(_: &T) {}
fn need_sync<T: Sync>(_: &T) {}
fn need_hex<T: LowerHex>(_: &T) {}

// bad: a styled value of something that cannot be displayed is not displayable
#[cfg(bad)]
fn bad_display() {
    need_display(&styled(Plain));
}
// bad: a styled value of something that cannot be debug-printed cannot be either
#[cfg(bad)]
fn bad_debug() {
    need_debug(&styled(Plain));
}
// bad: a styled value of a displayable is not a hexadecimal number
#[cfg(bad)]
fn bad_hex() {
    need_hex(&styled(Shown));
}
// bad: a styled value of something not Copy is not Copy
#[cfg(bad)]
fn bad_copy() {
    need_copy(&styled(Plain));
}
// bad: a styled value of something not Clone is not Clone
#[cfg(bad)]
fn bad_clone() {
    need_clone(&styled(Plain));
}
// bad: a styled value of something tied to its thread stays there
#[cfg(bad)]
fn bad_send() {
    need_send(&styled(Local(core::ptr::null())));
}
// bad: a styled value of something not shareable is not shareable
#[cfg(bad)]
fn bad_sync() {
    need_sync(&styled(core::cell::Cell::new(1)));
}
// end

fn every_trait<T, F: OptionalColor, B: OptionalColor, U: OptionalColor>(x: &StyledValue<T, F, B, U>) -> [&dyn Fmt; 1]
where
    T: Display + Debug + Binary + Octal + LowerHex + UpperHex + LowerExp + UpperExp + Pointer,
{
    [x]
}
trait Fmt {}
impl<T: Display + Debug + Binary + Octal + LowerHex + UpperHex + LowerExp + UpperExp + Pointer> Fmt for T {}

fn only_display<T: Display, F: OptionalColor, B: OptionalColor, U: OptionalColor>(x: StyledValue<T, F, B, U>) -> impl Display {
    x
}
fn only_pointer<'a>(x: &'a u8) -> impl Pointer + 'a {
    styled(x)
}
fn shown() {
    need_display(&styled(Shown));
    need_display(&Shown.red());
    need_display(&Shown.into_red());
}
fn moves<T: Send + Sync + Clone>(x: T) {
    let s = styled(x);
    need_send(&s);
    need_sync(&s);
    need_clone(&s);
}
fn unsized_values(a: &str, b: &dyn Display, c: &[u8]) {
    need_display(&a.red());
    need_display(&b.on_blue());
    need_debug(&c.bold());
    need_display(&<str as Colorize>::fg(a, xterm::Aqua));
    need_display(&<dyn Display as Colorize>::style(b));
    need_debug(&<[u8] as Colorize>::underline_color(c, rgb::RgbColor { red: 1, green: 2, blue: 3 }));
}
fn borrowed<'a, T: Display>(x: &'a T) -> impl Display + 'a {
    x.green()
}
fn consumed<T: Display + 'static>(x: T) -> impl Display + 'static {
    x.into_green().on_black().bold()
}
fn generic<C: WriteColor + Copy, O: OptionalColor + Copy>(c: C, o: O) -> (impl Display, impl Display) {
    let s = Style::new().fg(c).bg(Some(c)).underline_color(o);
    (s.apply(), s.clear())
}
fn runtime(c: Option<Color>) -> Style<Option<Color>, NoColor, NoColor> {
    Style::new().fg(c)
}
fn erased(c: Option<Color>) -> StyledValue<u8, Option<Color>, Option<Color>, Option<Color>> {
    StyledValue::new(7, runtime(c).into_runtime_style(), None)
}
fn nested<T: Display>(x: T) -> impl Display {
    x.into_red().into_style().on_blue()
}
fn custom<T>(x: &StyledValue<T>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    x.fmt_with(f, |_, f| f.write_str("mine"))
}
fn colours() -> [Color; 7] {
    [
        ansi::Red.into(),
        ansi::AnsiColor::Red.into(),
        css::Red.into(),
        css::CssColor::Red.into(),
        xterm::Red.into(),
        xterm::XtermColor::Red.into(),
        rgb::Rgb::<1, 2, 3>.into(),
    ]
}
fn optional_colours() -> [Option<Color>; 4] {
    [NoColor.into(), ansi::Red.into(), css::CssColor::Red.into(), rgb::RgbColor { red: 1, green: 2, blue: 3 }.into()]
}
