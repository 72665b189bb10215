//! C32: formatter options reach the value and never the escape codes.
use crate::util::*;
use crate::vh::*;
use colorz::mode::*;
use colorz::{Effect, OptionalColor, StyledValue};
use core::fmt::{self, *};

const FEW: [Effect; 2] = [Effect::Bold, Effect::Underline];

macro_rules! forwarding {
    ($($f:ident $tr:ident)*) => { $(
        pub fn $f<T: fmt::$tr, F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
            set_coloring_mode(any("mode"));
            let e = effects_or(&FEW);
            let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), e);
            let v: StyledValue<T, F, B, U> = StyledValue::new(any("value"), s, Some(Stream::AlwaysColor));
            let c = branch(s.should_color(v.stream));
            let o = new_sink(false);
            let r = fmt::$tr::fmt(&v, formatter(o));
            check(r.is_ok(), "formatting a styled value succeeds on a working writer");
            let x = new_sink(false);
            if c {
                let _ = fmt::Display::fmt(&s.apply(), plain_formatter(x));
            }
            let _ = fmt::$tr::fmt(&v.value, formatter(x));
            if c {
                let _ = fmt::Display::fmt(&s.clear(), plain_formatter(x));
            }
            check(same(o, x), "the caller's options reach the inner value under the same trait, and only it");
        }
    )* };
}
forwarding! {
    check_display Display
    check_debug Debug
    check_binary Binary
    check_octal Octal
    check_pointer Pointer
    check_lower_exp LowerExp
    check_upper_exp UpperExp
    check_lower_hex LowerHex
    check_upper_hex UpperHex
}
/// custom formatters see the caller's options
pub fn check_custom<T: fmt::Display>() {
    set_coloring_mode(any("mode"));
    let v = StyledValue::new(any::<T>("value"), colorz::Style::new().fg(colorz::ansi::Red).bold(), any("stream"));
    let c = branch(v.style.should_color(v.stream));
    let o = new_sink(false);
    let r = v.fmt_with(formatter(o), |t, f| fmt::Display::fmt(t, f));
    check(r.is_ok(), "formatting a styled value succeeds on a working writer");
    let x = new_sink(false);
    if c {
        let _ = fmt::Display::fmt(&v.style.apply(), plain_formatter(x));
    }
    let _ = fmt::Display::fmt(&v.value, formatter(x));
    if c {
        let _ = fmt::Display::fmt(&v.style.clear(), plain_formatter(x));
    }
    check(same(o, x), "the caller's options reach a custom formatter, and only it");
}
/// the escape codes themselves ignore options
pub fn check_escapes<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let e = effects_among("effects", &FEW);
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), e);
    let o = new_sink(false);
    let _ = fmt::Display::fmt(&s.apply(), formatter(o));
    let x = new_sink(false);
    let _ = fmt::Display::fmt(&s.apply(), plain_formatter(x));
    check(same(o, x), "apply ignores formatter options");
    let o = new_sink(false);
    let _ = fmt::Display::fmt(&s.clear(), formatter(o));
    let x = new_sink(false);
    let _ = fmt::Display::fmt(&s.clear(), plain_formatter(x));
    check(same(o, x), "clear ignores formatter options");
}
pub fn check_clear_all() {
    let o = new_sink(false);
    let _ = fmt::Display::fmt(&colorz::Style::clear_all(), formatter(o));
    let x = new_sink(false);
    let _ = fmt::Display::fmt(&colorz::Style::clear_all(), plain_formatter(x));
    check(same(o, x), "clear_all ignores formatter options");
}
pub fn check_colors_concrete_WriteColor<C: colorz::WriteColor>() {
    colors::<C>();
}
pub fn check_colors_spec_concrete_ColorSpec<C: colorz::ColorSpec>() {
    colors::<C>();
}
fn colors<C: colorz::WriteColor>() {
    let c: C = any("color");
    let o = new_sink(false);
    let x = new_sink(false);
    let _ = c.fmt_foreground(formatter(o));
    let _ = c.fmt_foreground(plain_formatter(x));
    let _ = c.fmt_background(formatter(o));
    let _ = c.fmt_background(plain_formatter(x));
    let _ = c.fmt_underline(formatter(o));
    let _ = c.fmt_underline(plain_formatter(x));
    let _ = c.fmt_foreground_args(formatter(o));
    let _ = c.fmt_foreground_args(plain_formatter(x));
    let _ = c.fmt_background_args(formatter(o));
    let _ = c.fmt_background_args(plain_formatter(x));
    let _ = c.fmt_underline_args(formatter(o));
    let _ = c.fmt_underline_args(plain_formatter(x));
    check(same(o, x), "colour output ignores formatter options");
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    use colorz::Colorize;
    match i {
        0 => core::fmt::Display::fmt(&"x".red(), f),
        1 => core::fmt::Display::fmt(&"yy".on_blue().underline(), f),
        2 => core::fmt::Display::fmt(&"z".into_red().into_style().bold(), f),
        _ => core::fmt::Display::fmt(&"".bold().underline(), f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
