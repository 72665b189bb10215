//! C07: apply selects exactly the style's colours and effects.
use crate::util::*;
use crate::vh::*;
use colorz::{Effect, OptionalColor, WriteColor};
use core::fmt::{Debug, Display};

/// reference: one sequence per selected item
fn expected<F: OptionalColor, B: OptionalColor, U: OptionalColor>(x: usize, s: colorz::Style<F, B, U>) {
    if let Some(c) = s.foreground.get() {
        let _ = c.fmt_foreground(plain_formatter(x));
    }
    if let Some(c) = s.background.get() {
        let _ = c.fmt_background(plain_formatter(x));
    }
    if has_underline(s.effects) {
        if let Some(c) = s.underline_color.get() {
            let _ = c.fmt_underline(plain_formatter(x));
        }
    }
    put_on(x, s.effects);
}

pub fn check_apply_s8<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let e = style_effects();
    shard_effects(e);
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), e);
    let o = new_sink(false);
    let r = Display::fmt(&s.apply(), plain_formatter(o));
    check(r.is_ok(), "apply succeeds on a working writer");
    let x = new_sink(false);
    expected(x, s);
    check(sgr_same(o, x), "apply selects exactly the style's colours and effects, each once");
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    let s = colorz::Style::new();
    match i {
        0 => core::fmt::Display::fmt(&s.fg(colorz::ansi::Red).apply(), f),
        1 => core::fmt::Display::fmt(&s.fg(colorz::ansi::Blue).bg(colorz::Color::Rgb(colorz::rgb::RgbColor { red: 1, green: 22, blue: 203 })).underline().bold().apply(), f),
        2 => core::fmt::Display::fmt(&s.underline_color(colorz::xterm::XtermColor::from_code(200)).double_underline().apply(), f),
        _ => core::fmt::Display::fmt(&s.bg(Some(colorz::Color::Css(colorz::css::CssColor::Tomato))).into_runtime_style().subscript().apply(), f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
