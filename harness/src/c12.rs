//! C12: xterm colours correspond one-to-one to the codes 0..=255.
use crate::util::*;
use crate::vh::*;
use colorz::xterm::XtermColor;
use colorz::{ColorSpec, WriteColor};
use core::fmt::Write;

const CODE: &str = "every code converts to the colour whose numeric value is that code";
const TEXT: &str = "the runtime colour prints its code in decimal on every layer";
const TYPE: &str = "the compile-time type prints its code on every layer";
const NAME: &str = "the runtime colour and the compile-time type of a name have the same code";
const MACRO: &str = "the code macro gives the compile-time type of that code";

fn decimal(head: &str, n: u8, tail: &str) -> usize {
    let x = text(head);
    put_dec(x, n);
    let _ = plain_formatter(x).write_str(tail);
    x
}
pub fn check_from_code() {
    let n: u8 = any("code");
    let c = XtermColor::from_code(n);
    check(c as u8 == n, CODE);
    check(XtermColor::from(n) == c, CODE);
    let d: XtermColor = n.into();
    check(d as u8 == n, CODE);
}
pub fn check_distinct() {
    let c: XtermColor = any("a colour");
    check(XtermColor::from_code(c as u8) == c, "every xterm colour is reached from its code");
}
pub fn check_runtime_text() {
    let n: u8 = any("code");
    let c = XtermColor::from_code(n);
    check(same(text(c.args()), decimal("5;", n, "")), TEXT);
    check(same(text(c.foreground_args()), decimal("38;5;", n, "")), TEXT);
    check(same(text(c.background_args()), decimal("48;5;", n, "")), TEXT);
    check(same(text(c.underline_args()), decimal("58;5;", n, "")), TEXT);
    check(same(text(c.foreground_escape()), decimal("\x1b[38;5;", n, "m")), TEXT);
    check(same(text(c.background_escape()), decimal("\x1b[48;5;", n, "m")), TEXT);
    check(same(text(c.underline_escape()), decimal("\x1b[58;5;", n, "m")), TEXT);
}
pub fn check_runtime_spec() {
    let n: u8 = any("code");
    let c = XtermColor::from_code(n);
    check(same(text(ColorSpec::foreground_args(c)), decimal("38;5;", n, "")), TEXT);
    check(same(text(ColorSpec::background_args(c)), decimal("48;5;", n, "")), TEXT);
    check(same(text(ColorSpec::underline_args(c)), decimal("58;5;", n, "")), TEXT);
    check(same(text(ColorSpec::foreground_escape(c)), decimal("\x1b[38;5;", n, "m")), TEXT);
    check(same(text(ColorSpec::background_escape(c)), decimal("\x1b[48;5;", n, "m")), TEXT);
    check(same(text(ColorSpec::underline_escape(c)), decimal("\x1b[58;5;", n, "m")), TEXT);
}
fn writes<C: WriteColor>(c: C, n: u8, what: &str) {
    check(same(out(|f| c.fmt_foreground_args(f)), decimal("38;5;", n, "")), what);
    check(same(out(|f| c.fmt_background_args(f)), decimal("48;5;", n, "")), what);
    check(same(out(|f| c.fmt_underline_args(f)), decimal("58;5;", n, "")), what);
    check(same(out(|f| c.fmt_foreground(f)), decimal("\x1b[38;5;", n, "m")), what);
    check(same(out(|f| c.fmt_background(f)), decimal("\x1b[48;5;", n, "m")), what);
    check(same(out(|f| c.fmt_underline(f)), decimal("\x1b[58;5;", n, "m")), what);
}
pub fn check_runtime_written() {
    let n: u8 = any("code");
    writes(XtermColor::from_code(n), n, TEXT);
}
macro_rules! types {
    ($($n:tt $name:ident)*) => {
        pub fn check_types_s8() { $( if $n % 8 == shard() {
            use colorz::xterm::$name as X;
            check(XtermColor::$name as u8 == $n, NAME);
            check(X::DYNAMIC as u8 == $n, NAME);
            check(X::ARGS == concat!("5;", $n), TYPE);
            check(X::FOREGROUND_ARGS == concat!("38;5;", $n), TYPE);
            check(X::BACKGROUND_ARGS == concat!("48;5;", $n), TYPE);
            check(X::UNDERLINE_ARGS == concat!("58;5;", $n), TYPE);
            check(X::FOREGROUND_ESCAPE == concat!("\x1b[38;5;", $n, "m"), TYPE);
            check(X::BACKGROUND_ESCAPE == concat!("\x1b[48;5;", $n, "m"), TYPE);
            check(X::UNDERLINE_ESCAPE == concat!("\x1b[58;5;", $n, "m"), TYPE);
            check(ColorSpec::foreground_args(X) == concat!("38;5;", $n), TYPE);
            check(ColorSpec::background_args(X) == concat!("48;5;", $n), TYPE);
            check(ColorSpec::underline_args(X) == concat!("58;5;", $n), TYPE);
            check(ColorSpec::foreground_escape(X) == concat!("\x1b[38;5;", $n, "m"), TYPE);
            check(ColorSpec::background_escape(X) == concat!("\x1b[48;5;", $n, "m"), TYPE);
            check(ColorSpec::underline_escape(X) == concat!("\x1b[58;5;", $n, "m"), TYPE);
        } )* }
        pub fn check_written_s8() { $( if $n % 8 == shard() { writes(colorz::xterm::$name, $n, TYPE); } )* }
        /// the macro as a type and as a value
        pub fn check_macro() { $( {
            check(<colorz::xterm_from_code!($n)>::ARGS == concat!("5;", $n), MACRO);
            check(colorz::xterm_from_code!($n) == colorz::xterm::$name, MACRO);
        } )* }
    };
}
xterm_all! { types }
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    use colorz::WriteColor;
    match i {
        0 => XtermColor::from_code(0).fmt_foreground(f),
        1 => XtermColor::from_code(200).fmt_background(f),
        2 => XtermColor::from_code(255).fmt_underline(f),
        _ => XtermColor::from_code(100).fmt_foreground_args(f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
