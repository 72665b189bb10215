//! C08: clear undoes exactly what apply selected.
use crate::util::*;
use crate::vh::*;
use colorz::{OptionalColor, Style};
use core::fmt::{self, Write};

pub fn check_clear_s8<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let e = style_effects();
    shard_effects(e);
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), e);
    let o = out(|f| fmt::Display::fmt(&s.clear(), f));
    let x = new_sink(false);
    let f = plain_formatter(x);
    if s.foreground.get().is_some() {
        let _ = f.write_str("\x1b[39m");
    }
    if s.background.get().is_some() {
        let _ = f.write_str("\x1b[49m");
    }
    if has_underline(e) && s.underline_color.get().is_some() {
        let _ = f.write_str("\x1b[59m");
    }
    put_off(x, e);
    check(sgr_same_set(o, x), "clear turns off exactly the layers and effects apply selects");
}
pub fn check_debug_is_display<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = any_style::<F, B, U>(&SOME_EFFECTS);
    let o = out(|f| fmt::Debug::fmt(&s.clear(), f));
    let x = out(|f| fmt::Display::fmt(&s.clear(), f));
    check(same(o, x), "clear writes the same through Debug");
}
pub fn check_clear_all() {
    let x = text("\x1b[0m");
    let o = out(|f| fmt::Display::fmt(&Style::clear_all(), f));
    check(sgr_same(o, x), "clear_all writes exactly one full reset");
    let o = out(|f| fmt::Debug::fmt(&Style::clear_all(), f));
    check(sgr_same(o, x), "clear_all writes exactly one full reset");
}
pub fn check_plain() {
    let s = Style::new();
    let o = out(|f| fmt::Display::fmt(&s.clear(), f));
    check(is_empty(o), "a plain style clears with no output");
    let s = Style::new().into_runtime_style();
    let o = out(|f| fmt::Display::fmt(&s.clear(), f));
    check(is_empty(o), "a plain style clears with no output");
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let s = colorz::Style::new();
    match i {
        0 => fmt::Display::fmt(&s.fg(colorz::ansi::Red).clear(), f),
        1 => fmt::Display::fmt(&s.fg(colorz::ansi::Blue).bg(colorz::Color::Rgb(colorz::rgb::RgbColor { red: 1, green: 22, blue: 203 })).underline().bold().clear(), f),
        2 => fmt::Display::fmt(&s.underline_color(colorz::xterm::XtermColor::from_code(200)).double_underline().clear(), f),
        _ => fmt::Display::fmt(&s.bg(Some(colorz::Color::Css(colorz::css::CssColor::Tomato))).into_runtime_style().subscript().clear(), f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
