//! C30: direct style and colour output ignores the colouring mode.
use crate::util::*;
use crate::vh::*;
use colorz::mode::{set_coloring_mode, set_default_stream, Mode, Stream};
use colorz::{ColorSpec, Effect, EffectFlags, NoColor, OptionalColor, Style, WriteColor};
use core::fmt;

const UNTOUCHED: &str = "direct output neither reads nor changes any global state";
const INDEPENDENT: &str = "direct output is the same whatever the settings";

fn untouched() {
    check(!globals_touched(), UNTOUCHED);
}
pub fn check_apply<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), effects_or(&SOME_EFFECTS));
    let _ = out(|f| fmt::Display::fmt(&s.apply(), f));
    untouched();
    let _ = out(|f| fmt::Debug::fmt(&s.apply(), f));
    untouched();
}
pub fn check_clear<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), effects_or(&SOME_EFFECTS));
    let _ = out(|f| fmt::Display::fmt(&s.clear(), f));
    untouched();
    let _ = out(|f| fmt::Debug::fmt(&s.clear(), f));
    untouched();
}
pub fn check_clear_all() {
    let _ = out(|f| fmt::Display::fmt(&Style::clear_all(), f));
    let _ = out(|f| fmt::Debug::fmt(&Style::clear_all(), f));
    untouched();
}
pub fn check_effects() {
    for_effects! { e => { let _ = (e.apply_args(), e.clear_args(), e.apply_escape(), e.clear_escape()); } };
    untouched();
}
fn write<C: WriteColor>(c: C) {
    let _ = out(|f| c.fmt_foreground_args(f));
    let _ = out(|f| c.fmt_background_args(f));
    let _ = out(|f| c.fmt_underline_args(f));
    let _ = out(|f| c.fmt_foreground(f));
    let _ = out(|f| c.fmt_background(f));
    let _ = out(|f| c.fmt_underline(f));
    untouched();
}
pub fn check_colors_concrete_WriteColor<C: WriteColor>() {
    write::<C>(any("colour"));
}
pub fn check_specs_concrete_ColorSpec<C: ColorSpec>() {
    let c: C = any("colour");
    write(c);
    let _ = (c.foreground_args(), c.background_args(), c.underline_args(), c.foreground_escape(), c.background_escape(), c.underline_escape());
    untouched();
}
fn settings() {
    set_coloring_mode(any::<Mode>("mode"));
    set_default_stream(any::<Stream>("default stream"));
}
/// the same output before and after changing the settings
pub fn check_settings<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), effects_among("effects", &SOME_EFFECTS));
    let (a, c) = (out(|f| fmt::Display::fmt(&s.apply(), f)), out(|f| fmt::Display::fmt(&s.clear(), f)));
    settings();
    let (b, d) = (out(|f| fmt::Display::fmt(&s.apply(), f)), out(|f| fmt::Display::fmt(&s.clear(), f)));
    check(same(a, b), INDEPENDENT);
    check(same(c, d), INDEPENDENT);
    check(is_empty(a) == branch(s.is_plain()), "direct output is not suppressed");
}
/// the same output while other threads change the settings
pub fn check_concurrent<F: OptionalColor, B: OptionalColor>() {
    let s = style_of::<F, B, NoColor>(any("foreground"), any("background"), NoColor, effects_among("effects", &SOME_EFFECTS));
    let a = out(|f| fmt::Display::fmt(&s.apply(), f));
    concurrent(true);
    let b = out(|f| fmt::Display::fmt(&s.apply(), f));
    check(same(a, b), INDEPENDENT);
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let s = Style::new();
    match i {
        0 => fmt::Display::fmt(&s.fg(colorz::ansi::Red).bold().underline().apply(), f),
        1 => fmt::Display::fmt(&s.bg(colorz::ansi::Blue).hide().reverse().clear(), f),
        2 => colorz::rgb::RgbColor { red: 1, green: 22, blue: 203 }.fmt_background(f),
        _ => fmt::Display::fmt(&Style::clear_all(), f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
