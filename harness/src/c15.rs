//! C15: type-erased colours write exactly what the wrapped colour writes.
use crate::util::*;
use crate::vh::*;
use colorz::{Color, OptionalColor, WriteColor};
use core::fmt;

const SAME: &str = "the type-erased colour writes what the wrapped colour writes";

fn agree<C: WriteColor>(e: Color, c: C) {
    check(same(out(|f| e.fmt_foreground_args(f)), out(|f| c.fmt_foreground_args(f))), SAME);
    check(same(out(|f| e.fmt_background_args(f)), out(|f| c.fmt_background_args(f))), SAME);
    check(same(out(|f| e.fmt_underline_args(f)), out(|f| c.fmt_underline_args(f))), SAME);
    check(same(out(|f| e.fmt_foreground(f)), out(|f| c.fmt_foreground(f))), SAME);
    check(same(out(|f| e.fmt_background(f)), out(|f| c.fmt_background(f))), SAME);
    check(same(out(|f| e.fmt_underline(f)), out(|f| c.fmt_underline(f))), SAME);
}
fn optional<C: WriteColor>(e: impl OptionalColor, c: C) {
    match e.get() {
        None => check(false, "a present type-erased colour is there"),
        Some(e) => {
            check(same(out(|f| e.fmt_foreground_args(f)), out(|f| c.fmt_foreground_args(f))), SAME);
            check(same(out(|f| e.fmt_background_args(f)), out(|f| c.fmt_background_args(f))), SAME);
            check(same(out(|f| e.fmt_underline_args(f)), out(|f| c.fmt_underline_args(f))), SAME);
            check(same(out(|f| e.fmt_foreground(f)), out(|f| c.fmt_foreground(f))), SAME);
            check(same(out(|f| e.fmt_background(f)), out(|f| c.fmt_background(f))), SAME);
            check(same(out(|f| e.fmt_underline(f)), out(|f| c.fmt_underline(f))), SAME);
        }
    }
}
pub fn check_colour() {
    let e: Color = any("type-erased colour");
    match e {
        Color::Ansi(c) => agree(e, c),
        Color::Xterm(c) => agree(e, c),
        Color::Css(c) => agree(e, c),
        Color::Rgb(c) => agree(e, c),
    }
}
pub fn check_optional() {
    let e: Color = any("type-erased colour");
    match e {
        Color::Ansi(c) => optional(Some(e), c),
        Color::Xterm(c) => optional(Some(e), c),
        Color::Css(c) => optional(Some(e), c),
        Color::Rgb(c) => optional(Some(e), c),
    }
}
fn failing(e: Color, op: impl Fn(Color, &mut fmt::Formatter<'_>) -> fmt::Result) {
    let o = new_sink(true);
    let r = op(e, formatter(o));
    check(r.is_err() == error_happened(o), "a type-erased colour reports exactly the writer's errors");
}
pub fn check_failing_writer() {
    let e: Color = any("type-erased colour");
    failing(e, |e, f| e.fmt_foreground_args(f));
    failing(e, |e, f| e.fmt_background_args(f));
    failing(e, |e, f| e.fmt_underline_args(f));
    failing(e, |e, f| e.fmt_foreground(f));
    failing(e, |e, f| e.fmt_background(f));
    failing(e, |e, f| e.fmt_underline(f));
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    use colorz::{ansi::AnsiColor, css::CssColor, rgb::RgbColor, xterm::XtermColor, Color, WriteColor};
    match i {
        0 => Color::Ansi(AnsiColor::Red).fmt_foreground(f),
        1 => Color::Xterm(XtermColor::from_code(1)).fmt_background(f),
        2 => Color::Css(CssColor::Red).fmt_underline(f),
        _ => Color::Rgb(RgbColor { red: 255, green: 0, blue: 0 }).fmt_foreground_args(f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
