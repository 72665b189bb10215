//! C16: the reported colour kind matches the kind of colour.
use crate::util::*;
use crate::vh::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::mode::{set_coloring_mode, set_default_stream, should_color, ColorKind, Mode, Stream};
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{Color, ColorSpec, Colorize, NoColor, OptionalColor, Style, WriteColor};

const KIND: &str = "a colour reports the kind of its family";
const DECLARED: &str = "a colour declares the kind of its family";
const ABSENT: &str = "an absent colour reports no colour";
const ASKS: &str = "a style asks for exactly the kinds of its three colours";

fn kind(c: Color) -> ColorKind {
    match c {
        Color::Ansi(_) => ColorKind::Ansi,
        Color::Xterm(_) => ColorKind::Xterm,
        Color::Css(_) | Color::Rgb(_) => ColorKind::Rgb,
    }
}
fn kind_opt(c: Option<Color>) -> ColorKind {
    match c {
        Some(c) => kind(c),
        None => ColorKind::NoColor,
    }
}
fn spec<C: ColorSpec>(c: C, k: ColorKind) {
    check(C::KIND == k, DECLARED);
    colour(c, k);
}
fn colour<C: WriteColor>(c: C, k: ColorKind) {
    check(WriteColor::color_kind(c) == k, KIND);
    check(OptionalColor::color_kind(c) == k, KIND);
    check(OptionalColor::color_kind(Some(c)) == k, KIND);
    check(OptionalColor::color_kind(Some(Some(c))) == k, KIND);
    check(OptionalColor::color_kind(None::<C>) == ColorKind::NoColor, ABSENT);
    check(OptionalColor::color_kind(Some(None::<C>)) == ColorKind::NoColor, ABSENT);
}
macro_rules! ansi {
    ($($n:ident $i:literal $fg:literal $bg:literal)*) => { pub fn check_ansi_types() { $( spec(colorz::ansi::$n, ColorKind::Ansi); )* spec(colorz::ansi::Default, ColorKind::Ansi); } };
}
macro_rules! xterm {
    ($($i:tt $n:ident)*) => { pub fn check_xterm_types_s8() { $( if $i % 8 == shard() { spec(colorz::xterm::$n, ColorKind::Xterm); } )* } };
}
macro_rules! css {
    ($($n:ident $r:literal $g:literal $b:literal)*) => { pub fn check_css_types_s8() { let mut i = 0; $( if i % 8 == shard() { spec(colorz::css::$n, ColorKind::Rgb); } i += 1; )* let _ = i; } };
}
ansi_all! { ansi }
xterm_all! { xterm }
css_all! { css }
pub fn check_rgb_types<const R: u8, const G: u8, const B: u8>() {
    spec(Rgb::<R, G, B>, ColorKind::Rgb);
}
pub fn check_runtime() {
    spec(any::<AnsiColor>("ansi colour"), ColorKind::Ansi);
    spec(any::<XtermColor>("xterm colour"), ColorKind::Xterm);
    spec(any::<CssColor>("css colour"), ColorKind::Rgb);
    colour(any::<RgbColor>("rgb colour"), ColorKind::Rgb);
    let c: Color = any("type-erased colour");
    colour(c, kind(c));
}
pub fn check_optional() {
    let c: Option<Color> = any("optional colour");
    check(c.color_kind() == kind_opt(c), KIND);
    check(Some(c).color_kind() == kind_opt(c), KIND);
    check(NoColor.color_kind() == ColorKind::NoColor, ABSENT);
    check(Some(NoColor).color_kind() == ColorKind::NoColor, ABSENT);
    check(None::<NoColor>.color_kind() == ColorKind::NoColor, ABSENT);
}
/// for every optional colour type: the kind is the present colour's, or none
pub fn check_contract<C: OptionalColor>() {
    let c: C = any("optional colour");
    let k = c.color_kind();
    match c.get() {
        Some(x) => check(k == WriteColor::color_kind(x), KIND),
        None => check(k == ColorKind::NoColor, ABSENT),
    }
}
fn asks(decide: impl Fn(Option<Stream>) -> bool, kinds: [ColorKind; 3]) {
    set_coloring_mode(Mode::Detect);
    set_default_stream(any("default stream"));
    let stream: Option<Stream> = any("stream");
    let got = branch(decide(stream));
    let want = branch(should_color(stream, &kinds));
    check(got == want, ASKS);
}
pub fn check_style_runtime() {
    let s: Style = any_style::<Option<Color>, Option<Color>, Option<Color>>(&[Effect::Underline]);
    asks(|st| s.should_color(st), [kind_opt(s.foreground), kind_opt(s.background), kind_opt(s.underline_color)]);
}
pub fn check_style_any<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = any_style::<F, B, U>(&[]);
    asks(|st| s.should_color(st), [s.foreground.color_kind(), s.background.color_kind(), s.underline_color.color_kind()]);
}
use colorz::Effect;
/// a styled value shows its style exactly when its three kinds are supported
pub fn check_styled_value<F: WriteColor, B: OptionalColor>() {
    let s = style_of::<F, B, NoColor>(any("foreground"), any("background"), NoColor, colorz::EffectFlags::new());
    set_coloring_mode(Mode::Detect);
    let stream: Stream = any("stream");
    let v = "".into_style_with(s).stream(stream);
    let o = out(|f| core::fmt::Display::fmt(&v, f));
    let kinds = [WriteColor::color_kind(s.foreground), s.background.color_kind(), ColorKind::NoColor];
    let want = branch(should_color(Some(stream), &kinds));
    check(is_empty(o) == !want, ASKS);
}
