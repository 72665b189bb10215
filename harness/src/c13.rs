//! C13: CSS named colours carry the standard RGB values everywhere.
use crate::util::*;
use crate::vh::*;
use colorz::css::CssColor;
use colorz::rgb::RgbColor;
use colorz::{Color, ColorSpec, WriteColor};
use core::fmt;

const RGB: &str = "the colour's RGB conversion gives the standard triple";
const TEXT: &str = "the colour prints the standard triple";

fn rgb_is(c: RgbColor, r: u8, g: u8, b: u8) {
    check(c.red == r && c.green == g && c.blue == b, RGB);
}
fn writes<C: WriteColor>(c: C, fa: &str, ba: &str, ua: &str, fe: &str, be: &str, ue: &str) {
    check(same(out(|f| c.fmt_foreground_args(f)), text(fa)), TEXT);
    check(same(out(|f| c.fmt_background_args(f)), text(ba)), TEXT);
    check(same(out(|f| c.fmt_underline_args(f)), text(ua)), TEXT);
    check(same(out(|f| c.fmt_foreground(f)), text(fe)), TEXT);
    check(same(out(|f| c.fmt_background(f)), text(be)), TEXT);
    check(same(out(|f| c.fmt_underline(f)), text(ue)), TEXT);
}
macro_rules! body {
    ($name:ident $r:literal $g:literal $b:literal) => {
        use colorz::css::$name as X;
        let c = CssColor::$name;
        let args = concat!("2;", $r, ";", $g, ";", $b);
        let fa = concat!("38;2;", $r, ";", $g, ";", $b);
        let ba = concat!("48;2;", $r, ";", $g, ";", $b);
        let ua = concat!("58;2;", $r, ";", $g, ";", $b);
        let fe = concat!("\x1b[38;2;", $r, ";", $g, ";", $b, "m");
        let be = concat!("\x1b[48;2;", $r, ";", $g, ";", $b, "m");
        let ue = concat!("\x1b[58;2;", $r, ";", $g, ";", $b, "m");
        rgb_is(c.rgb(), $r, $g, $b);
        rgb_is(RgbColor::from(c), $r, $g, $b);
        rgb_is(X::DYNAMIC.rgb(), $r, $g, $b);
        rgb_is(CssColor::from(X).rgb(), $r, $g, $b);
        check(c.args() == args, TEXT);
        check(c.foreground_args() == fa, TEXT);
        check(c.background_args() == ba, TEXT);
        check(c.underline_args() == ua, TEXT);
        check(c.foreground_escape() == fe, TEXT);
        check(c.background_escape() == be, TEXT);
        check(c.underline_escape() == ue, TEXT);
        check(ColorSpec::foreground_args(c) == fa, TEXT);
        check(ColorSpec::background_args(c) == ba, TEXT);
        check(ColorSpec::underline_args(c) == ua, TEXT);
        check(ColorSpec::foreground_escape(c) == fe, TEXT);
        check(ColorSpec::background_escape(c) == be, TEXT);
        check(ColorSpec::underline_escape(c) == ue, TEXT);
        check(X::ARGS == args, TEXT);
        check(X::FOREGROUND_ARGS == fa, TEXT);
        check(X::BACKGROUND_ARGS == ba, TEXT);
        check(X::UNDERLINE_ARGS == ua, TEXT);
        check(X::FOREGROUND_ESCAPE == fe, TEXT);
        check(X::BACKGROUND_ESCAPE == be, TEXT);
        check(X::UNDERLINE_ESCAPE == ue, TEXT);
        check(ColorSpec::foreground_args(X) == fa, TEXT);
        check(ColorSpec::background_args(X) == ba, TEXT);
        check(ColorSpec::underline_args(X) == ua, TEXT);
        check(ColorSpec::foreground_escape(X) == fe, TEXT);
        check(ColorSpec::background_escape(X) == be, TEXT);
        check(ColorSpec::underline_escape(X) == ue, TEXT);
        writes(c, fa, ba, ua, fe, be, ue);
        writes(X, fa, ba, ua, fe, be, ue);
        writes(Color::from(X), fa, ba, ua, fe, be, ue);
        writes(X::RGB, fa, ba, ua, fe, be, ue);
    };
}
macro_rules! colours {
    ($($name:ident $r:literal $g:literal $b:literal)*) => {
        #[allow(non_snake_case)]
        mod each { use super::*; $( pub fn $name() { body!($name $r $g $b); } )* }
        pub fn check_colours_s8() { let mut i = 0; $( if i % 8 == shard() { each::$name(); } i += 1; )* let _ = i; }
        /// the oracle covers every runtime colour
        pub fn check_complete() {
            let c: CssColor = any("css colour");
            let r = match c { $( CssColor::$name => RgbColor { red: $r, green: $g, blue: $b }, )* #[allow(unreachable_patterns)] _ => c.rgb() };
            check(same_value(&c.rgb(), &r), RGB);
        }
    };
}
css_all! { colours }
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    use colorz::WriteColor;
    match i {
        0 => CssColor::Red.fmt_foreground(f),
        1 => CssColor::Tomato.fmt_background(f),
        2 => CssColor::AliceBlue.fmt_underline(f),
        _ => CssColor::Black.fmt_foreground_args(f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
