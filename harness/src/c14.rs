//! C14: ANSI colours use the standard codes on every layer.
use crate::util::*;
use crate::vh::*;
use colorz::ansi::AnsiColor;
use colorz::xterm::XtermColor;
use colorz::{ColorSpec, WriteColor};

const RUNTIME: &str = "the runtime colour uses the standard codes";
const TYPE: &str = "the compile-time type uses the standard codes";
const XTERM: &str = "the colour converts to the xterm colour of the same index";
const DEFAULT: &str = "the default colour selects the terminal default on the foreground and background";
const UNDERLINE: &str = "the default colour selects the terminal default on the underline layer";

fn writes<C: WriteColor>(c: C, t: [&str; 6], what: &str) {
    check(same(out(|f| c.fmt_foreground_args(f)), text(t[0])), what);
    check(same(out(|f| c.fmt_background_args(f)), text(t[1])), what);
    check(same(out(|f| c.fmt_underline_args(f)), text(t[2])), what);
    check(same(out(|f| c.fmt_foreground(f)), text(t[3])), what);
    check(same(out(|f| c.fmt_background(f)), text(t[4])), what);
    check(same(out(|f| c.fmt_underline(f)), text(t[5])), what);
}
fn spec<C: ColorSpec>(c: C, t: [&str; 6], what: &str) {
    check(c.foreground_args() == t[0], what);
    check(c.background_args() == t[1], what);
    check(c.underline_args() == t[2], what);
    check(c.foreground_escape() == t[3], what);
    check(c.background_escape() == t[4], what);
    check(c.underline_escape() == t[5], what);
}
macro_rules! colours {
    ($($n:ident $i:literal $fg:literal $bg:literal)*) => {
        pub fn check_codes() { $( {
            use colorz::ansi::$n as X;
            let c = AnsiColor::$n;
            let t = [
                $fg,
                $bg,
                concat!("58;5;", $i),
                concat!("\x1b[", $fg, "m"),
                concat!("\x1b[", $bg, "m"),
                concat!("\x1b[58;5;", $i, "m"),
            ];
            check(c.foreground_args() == t[0], RUNTIME);
            check(c.background_args() == t[1], RUNTIME);
            check(c.underline_args() == t[2], RUNTIME);
            check(c.foreground_escape() == t[3], RUNTIME);
            check(c.background_escape() == t[4], RUNTIME);
            check(c.underline_escape() == t[5], RUNTIME);
            spec(c, t, RUNTIME);
            writes(c, t, RUNTIME);
            check(X::FOREGROUND_ARGS == t[0], TYPE);
            check(X::BACKGROUND_ARGS == t[1], TYPE);
            check(X::FOREGROUND_ESCAPE == t[3], TYPE);
            check(X::BACKGROUND_ESCAPE == t[4], TYPE);
            spec(X, t, TYPE);
            writes(X, t, TYPE);
            check(X::DYNAMIC == c, TYPE);
        } )* }
        pub fn check_xterm() { $( {
            use colorz::ansi::$n as X;
            let c = AnsiColor::$n;
            check(c.to_xterm() as u8 == $i, XTERM);
            check(XtermColor::from(c) as u8 == $i, XTERM);
            check(X::DYNAMIC_XTERM as u8 == $i, XTERM);
            check(XtermColor::from_code($i) == c.to_xterm(), XTERM);
            check(ColorSpec::into_dynamic(X::XTERM) as u8 == $i, XTERM);
        } )* }
    };
}
ansi_all! { colours }

// the default colour, one rule instance per place
pub fn check_default_runtime() {
    let c = AnsiColor::Default;
    check(c.foreground_args() == "39", DEFAULT);
    check(c.background_args() == "49", DEFAULT);
    check(c.foreground_escape() == "\x1b[39m", DEFAULT);
    check(c.background_escape() == "\x1b[49m", DEFAULT);
    check(ColorSpec::foreground_args(c) == "39", DEFAULT);
    check(ColorSpec::background_args(c) == "49", DEFAULT);
    check(ColorSpec::foreground_escape(c) == "\x1b[39m", DEFAULT);
    check(ColorSpec::background_escape(c) == "\x1b[49m", DEFAULT);
    written(c);
}
fn written<C: WriteColor>(c: C) {
    check(same(out(|f| c.fmt_foreground_args(f)), text("39")), DEFAULT);
    check(same(out(|f| c.fmt_background_args(f)), text("49")), DEFAULT);
    check(same(out(|f| c.fmt_foreground(f)), text("\x1b[39m")), DEFAULT);
    check(same(out(|f| c.fmt_background(f)), text("\x1b[49m")), DEFAULT);
}
pub fn check_default_type() {
    use colorz::ansi::Default as X;
    check(X::FOREGROUND_ARGS == "39", DEFAULT);
    check(X::BACKGROUND_ARGS == "49", DEFAULT);
    check(X::FOREGROUND_ESCAPE == "\x1b[39m", DEFAULT);
    check(X::BACKGROUND_ESCAPE == "\x1b[49m", DEFAULT);
    check(ColorSpec::foreground_args(X) == "39", DEFAULT);
    check(ColorSpec::background_args(X) == "49", DEFAULT);
    check(ColorSpec::foreground_escape(X) == "\x1b[39m", DEFAULT);
    check(ColorSpec::background_escape(X) == "\x1b[49m", DEFAULT);
    written(X);
    check(X::DYNAMIC == AnsiColor::Default, TYPE);
}
macro_rules! underline {
    ($($f:ident $c:expr, $m:ident, $t:literal;)*) => { $( pub fn $f() { check(same(text($c.$m()), text($t)), UNDERLINE); } )* };
    (spec $($f:ident $c:expr, $m:ident, $t:literal;)*) => { $( pub fn $f() { check(same(text(ColorSpec::$m($c)), text($t)), UNDERLINE); } )* };
    (write $($f:ident $c:expr, $m:ident, $t:literal;)*) => { $( pub fn $f() { check(same(out(|f| WriteColor::$m($c, f)), text($t)), UNDERLINE); } )* };
}
underline! {
    check_default_underline_args AnsiColor::Default, underline_args, "59";
    check_default_underline_escape AnsiColor::Default, underline_escape, "\x1b[59m";
}
underline! { spec
    check_default_underline_spec_args AnsiColor::Default, underline_args, "59";
    check_default_underline_spec_escape AnsiColor::Default, underline_escape, "\x1b[59m";
    check_default_underline_type_args colorz::ansi::Default, underline_args, "59";
    check_default_underline_type_escape colorz::ansi::Default, underline_escape, "\x1b[59m";
}
underline! { write
    check_default_underline_written_args AnsiColor::Default, fmt_underline_args, "59";
    check_default_underline_written_escape AnsiColor::Default, fmt_underline, "\x1b[59m";
    check_default_underline_type_written_args colorz::ansi::Default, fmt_underline_args, "59";
    check_default_underline_type_written_escape colorz::ansi::Default, fmt_underline, "\x1b[59m";
}
/// the runtime form agrees with the compile-time form wherever both exist
pub fn check_default_agrees() {
    let (c, x) = (AnsiColor::Default, colorz::ansi::Default);
    let w = "the runtime and the compile-time default colour agree";
    check(ColorSpec::underline_args(c) == ColorSpec::underline_args(x), w);
    check(ColorSpec::underline_escape(c) == ColorSpec::underline_escape(x), w);
    check(c.to_xterm() == colorz::ansi::Default::DYNAMIC_XTERM, w);
    check(XtermColor::from(c) == ColorSpec::into_dynamic(colorz::ansi::Default::XTERM), w);
    check(same(out(|f| c.fmt_underline(f)), out(|f| x.fmt_underline(f))), w);
}
/// no colour is left out
pub fn check_complete() {
    let c: AnsiColor = any("ansi colour");
    let known = match c {
        AnsiColor::Black | AnsiColor::Red | AnsiColor::Green | AnsiColor::Yellow | AnsiColor::Blue | AnsiColor::Magenta | AnsiColor::Cyan | AnsiColor::White => true,
        AnsiColor::BrightBlack | AnsiColor::BrightRed | AnsiColor::BrightGreen | AnsiColor::BrightYellow => true,
        AnsiColor::BrightBlue | AnsiColor::BrightMagenta | AnsiColor::BrightCyan | AnsiColor::BrightWhite | AnsiColor::Default => true,
        #[allow(unreachable_patterns)]
        _ => false,
    };
    check(known, "the oracle covers every ANSI colour");
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    use colorz::{ansi::AnsiColor, WriteColor};
    match i {
        0 => AnsiColor::Red.fmt_foreground(f),
        1 => AnsiColor::BrightBlue.fmt_background(f),
        2 => AnsiColor::BrightWhite.fmt_underline(f),
        _ => colorz::ansi::Black.fmt_foreground_args(f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
