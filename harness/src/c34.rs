//! C34: type-erasing a style keeps its colours, effects and output.
use crate::util::*;
use crate::vh::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{ansi, css, xterm, Color, ColorSpec, ComptimeColor, Effect, EffectFlags, NoColor, OptionalColor, Style};
use core::fmt;

const SLOTS: &str = "the runtime style keeps every colour slot and the effect set";
const OUTPUT: &str = "the runtime style selects and clears the same colours and effects";
const AGREE: &str = "both conversions agree";

/// slots and effects, for opaque colours with opaque conversions
fn slots<F, B, U>(s: Style<F, B, U>)
where
    F: OptionalColor + Into<Option<Color>>,
    B: OptionalColor + Into<Option<Color>>,
    U: OptionalColor + Into<Option<Color>>,
{
    let r = s.into_runtime_style();
    let (f, b, u): (Option<Color>, Option<Color>, Option<Color>) = (s.foreground.into(), s.background.into(), s.underline_color.into());
    check(same_value(&r.foreground, &f), SLOTS);
    check(same_value(&r.background, &b), SLOTS);
    check(same_value(&r.underline_color, &u), SLOTS);
    check(r.effects == s.effects, SLOTS);
}
fn both<F, B, U>(s: Style<F, B, U>)
where
    F: OptionalColor + Into<Option<Color>> + ComptimeColor,
    B: OptionalColor + Into<Option<Color>> + ComptimeColor,
    U: OptionalColor + Into<Option<Color>> + ComptimeColor,
{
    let (r, c) = (s.into_runtime_style(), s.const_into_runtime_style());
    check(same_value(&c.foreground, &r.foreground), AGREE);
    check(same_value(&c.background, &r.background), AGREE);
    check(same_value(&c.underline_color, &r.underline_color), AGREE);
    check(c.effects == r.effects, AGREE);
    check(c.effects == s.effects, SLOTS);
}
fn selects<F: OptionalColor, B: OptionalColor, U: OptionalColor>(s: Style<F, B, U>, r: Style) {
    let (a, b) = (out(|f| fmt::Display::fmt(&s.apply(), f)), out(|f| fmt::Display::fmt(&r.apply(), f)));
    check(sgr_same(a, b), OUTPUT);
    let (a, b) = (out(|f| fmt::Display::fmt(&s.clear(), f)), out(|f| fmt::Display::fmt(&r.clear(), f)));
    check(sgr_same_set(a, b), OUTPUT);
}
fn layers<C: ComptimeColor + OptionalColor + Into<Option<Color>>>(c: C, e: EffectFlags) {
    let s = Style::new().effect_flags(e);
    slots(s.fg(c).bg(NoColor).underline_color(NoColor));
    slots(s.bg(c));
    slots(s.underline_color(c));
    slots(s.fg(c).bg(c).underline_color(c));
    both(s.fg(c));
    both(s.bg(c));
    both(s.underline_color(c));
    both(s.fg(c).bg(c).underline_color(c));
}
fn shown<C: ComptimeColor + OptionalColor + Into<Option<Color>>>(c: C) {
    let e = effects_among("effects", &[Effect::Bold, Effect::Underline]);
    let s = Style::new().effect_flags(e).fg(c).bg(c).underline_color(c);
    selects(s, s.into_runtime_style());
    let s = Style::new().effect_flags(e).fg(c);
    selects(s, s.into_runtime_style());
    let s = Style::new().effect_flags(e).bg(c);
    selects(s, s.into_runtime_style());
    let s = Style::new().effect_flags(e).underline_color(c);
    selects(s, s.const_into_runtime_style());
}
pub fn check_slots() {
    let e = any_effects();
    layers(NoColor, e);
    layers(ansi::Red, e);
    layers(ansi::Default, e);
    layers(xterm::Aquamarine, e);
    layers(css::AliceBlue, e);
}
pub fn check_slots_rgb<const R: u8, const G: u8, const B: u8>() {
    layers(Rgb::<R, G, B>, any_effects());
}
/// every slot keeps its own colour
pub fn check_slots_apart() {
    let e = any_effects();
    let s = Style::new().effect_flags(e).fg(ansi::Red).bg(xterm::Aquamarine).underline_color(css::Tan);
    let r = s.into_runtime_style();
    let c = s.const_into_runtime_style();
    let is = |x: Style| {
        check(x.foreground == Some(Color::Ansi(AnsiColor::Red)), SLOTS);
        check(x.background == Some(Color::Xterm(XtermColor::Aquamarine)), SLOTS);
        check(x.underline_color == Some(Color::Css(CssColor::Tan)), SLOTS);
        check(x.effects == e, SLOTS);
    };
    is(r);
    is(c);
}
pub fn check_runtime_slots() {
    let e = any_effects();
    let (f, b, u): (Option<Color>, Option<Color>, Option<Color>) = (any("foreground"), any("background"), any("underline_color"));
    let r = style_of(f, b, u, e).into_runtime_style();
    check(same_value(&r.foreground, &f), SLOTS);
    check(same_value(&r.background, &b), SLOTS);
    check(same_value(&r.underline_color, &u), SLOTS);
    check(r.effects == e, SLOTS);
    let (f, b, u): (AnsiColor, XtermColor, RgbColor) = (any("foreground"), any("background"), any("underline_color"));
    slots(style_of(f, b, u, e));
    let f: CssColor = any("css foreground");
    slots(style_of(f, NoColor, Some(ansi::Red).map(Color::from), e));
}
macro_rules! shown_ansi {
    ($($n:ident $i:literal $fg:literal $bg:literal)*) => { pub fn check_output_ansi() { $( shown(ansi::$n); )* shown(ansi::Default); shown(NoColor); } };
}
macro_rules! each_xterm {
    ($($i:tt $n:ident)*) => { pub fn check_output_xterm_s8() { $( if $i % 8 == shard() { one(xterm::$n); } )* } };
}
macro_rules! each_css {
    ($($n:ident $r:literal $g:literal $b:literal)*) => { pub fn check_output_css_s8() { let mut i = 0; $( if i % 8 == shard() { one(css::$n); } i += 1; )* let _ = i; } };
}
/// all layers at once, with and without a mergeable effect set
fn one<C: ComptimeColor + OptionalColor + Into<Option<Color>>>(c: C) {
    let s = Style::new().fg(c).bg(c).underline_color(c).underline();
    both(s);
    selects(s, s.into_runtime_style());
    let s = s.bold();
    selects(s, s.const_into_runtime_style());
}
ansi_all! { shown_ansi }
xterm_all! { each_xterm }
css_all! { each_css }
pub fn check_output_rgb() {
    shown(Rgb::<0, 0, 0>);
    shown(Rgb::<1, 20, 255>);
    shown(Rgb::<99, 100, 9>);
}
/// a runtime style shows what it showed before erasing it again
pub fn check_output_runtime_foreground() {
    let c: RgbColor = any("foreground");
    let s = Style::new().fg(c);
    selects(s, s.into_runtime_style());
    let s = s.bold();
    selects(s, s.into_runtime_style());
}
pub fn check_output_runtime_background() {
    let c: RgbColor = any("background");
    let s = Style::new().bg(c);
    selects(s, s.into_runtime_style());
    let s = s.bold();
    selects(s, s.into_runtime_style());
}
pub fn check_output_runtime_underline() {
    let c: RgbColor = any("underline_color");
    let s = Style::new().underline_color(c);
    selects(s, s.into_runtime_style());
    let s = s.underline();
    selects(s, s.into_runtime_style());
}
pub fn check_output_runtime_ansi() {
    let e = effects_among("effects", &[Effect::Bold, Effect::SubScript]);
    let c: AnsiColor = any("colour");
    let s = Style::new().effect_flags(e).fg(c);
    selects(s, s.into_runtime_style());
    let s = Style::new().effect_flags(e).bg(c);
    selects(s, s.into_runtime_style());
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let s = colorz::Style::new();
    match i {
        0 => fmt::Display::fmt(&s.fg(colorz::ansi::Red).into_runtime_style().apply(), f),
        1 => fmt::Display::fmt(&s.fg(colorz::ansi::Blue).bg(colorz::css::Tomato).underline().bold().into_runtime_style().apply(), f),
        2 => fmt::Display::fmt(&s.underline_color(colorz::rgb::Rgb::<1, 2, 3>).double_underline().const_into_runtime_style().clear(), f),
        _ => fmt::Display::fmt(&s.bg(Some(colorz::Color::Css(colorz::css::CssColor::Tomato))).into_runtime_style().subscript().clear(), f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
