//! C18: conversions between colour forms preserve the colour.
use crate::util::*;
use crate::vh::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{Color, ColorSpec, ComptimeColor, NoColor};

const RUNTIME: &str = "converting to the runtime type keeps the colour";
const ERASED: &str = "converting to the type-erased colour keeps the colour";
const OPTIONAL: &str = "converting to the optional type-erased colour keeps the colour";
const TRIPLE: &str = "CSS to RGB keeps the triple";
const INDEX: &str = "ANSI to xterm keeps the index";
const ABSENT: &str = "no-colour converts to no colour";

fn is_ansi(c: Color, a: AnsiColor, w: &str) {
    match c {
        Color::Ansi(x) => check(x == a, w),
        _ => check(false, w),
    }
}
fn is_xterm(c: Color, a: XtermColor, w: &str) {
    match c {
        Color::Xterm(x) => check(x == a, w),
        _ => check(false, w),
    }
}
fn is_css(c: Color, a: CssColor, w: &str) {
    match c {
        Color::Css(x) => check(x == a, w),
        _ => check(false, w),
    }
}
fn is_rgb(c: Color, r: u8, g: u8, b: u8, w: &str) {
    match c {
        Color::Rgb(x) => check(x.red == r && x.green == g && x.blue == b, w),
        _ => check(false, w),
    }
}
fn some(c: Option<Color>) -> Color {
    match c {
        Some(c) => c,
        None => {
            check(false, OPTIONAL);
            Color::Ansi(AnsiColor::Black)
        }
    }
}
macro_rules! single {
    ($X:ident $r:expr, $is:ident) => {
        check($X::DYNAMIC == $r, RUNTIME);
        check(ColorSpec::into_dynamic($X) == $r, RUNTIME);
        check(ColorSpec::into_dynamic($r) == $r, RUNTIME);
        $is(Color::from($X), $r, ERASED);
        $is(Into::<Color>::into($r), $r, ERASED);
        $is(some(Option::<Color>::from($X)), $r, OPTIONAL);
        $is(some(Option::<Color>::from($r)), $r, OPTIONAL);
        $is(some(<$X as ComptimeColor>::VALUE), $r, OPTIONAL);
    };
}
macro_rules! ansi {
    ($($n:ident $i:literal $fg:literal $bg:literal)*) => {
        pub fn check_ansi_types() { $( {
            use colorz::ansi::$n as X;
            single!(X AnsiColor::$n, is_ansi);
            check(AnsiColor::from(X) == AnsiColor::$n, RUNTIME);
            check(AnsiColor::$n.to_xterm() as u8 == $i, INDEX);
            check(XtermColor::from(AnsiColor::$n) as u8 == $i, INDEX);
            check(X::DYNAMIC_XTERM as u8 == $i, INDEX);
            check(ColorSpec::into_dynamic(X::XTERM) as u8 == $i, INDEX);
        } )* }
    };
}
macro_rules! xterm {
    ($($i:tt $n:ident)*) => {
        pub fn check_xterm_types_s8() { $( if $i % 8 == shard() {
            use colorz::xterm::$n as X;
            single!(X XtermColor::$n, is_xterm);
            check(XtermColor::from(X) == XtermColor::$n, RUNTIME);
        } )* }
    };
}
macro_rules! css {
    ($($n:ident $r:literal $g:literal $b:literal)*) => {
        pub fn check_css_types_s8() { let mut i = 0; $( if i % 8 == shard() {
            use colorz::css::$n as X;
            single!(X CssColor::$n, is_css);
            check(CssColor::from(X) == CssColor::$n, RUNTIME);
            let c = CssColor::$n.rgb();
            let d = RgbColor::from(CssColor::$n);
            let e = ColorSpec::into_dynamic(X::RGB);
            check(c.red == $r && c.green == $g && c.blue == $b, TRIPLE);
            check(same_value(&c, &d) && same_value(&c, &e), TRIPLE);
        } i += 1; )* let _ = i; }
    };
}
ansi_all! { ansi }
xterm_all! { xterm }
css_all! { css }
pub fn check_ansi_default() {
    use colorz::ansi::Default as X;
    single!(X AnsiColor::Default, is_ansi);
    check(AnsiColor::from(X) == AnsiColor::Default, RUNTIME);
    let x = AnsiColor::Default.to_xterm();
    check(XtermColor::from(AnsiColor::Default) == x && X::DYNAMIC_XTERM == x && ColorSpec::into_dynamic(X::XTERM) == x, "every conversion to xterm agrees");
}
/// every value of the runtime types
pub fn check_runtime_types() {
    let a: AnsiColor = any("ansi colour");
    is_ansi(a.into(), a, ERASED);
    is_ansi(some(a.into()), a, OPTIONAL);
    check(ColorSpec::into_dynamic(a) == a, RUNTIME);
    let x: XtermColor = any("xterm colour");
    is_xterm(x.into(), x, ERASED);
    is_xterm(some(x.into()), x, OPTIONAL);
    check(ColorSpec::into_dynamic(x) == x, RUNTIME);
    let c: CssColor = any("css colour");
    is_css(c.into(), c, ERASED);
    is_css(some(c.into()), c, OPTIONAL);
    check(ColorSpec::into_dynamic(c) == c, RUNTIME);
}
pub fn check_rgb_runtime() {
    let (r, g, b): (u8, u8, u8) = (any("red"), any("green"), any("blue"));
    let c = RgbColor { red: r, green: g, blue: b };
    is_rgb(c.into(), r, g, b, ERASED);
    is_rgb(some(c.into()), r, g, b, OPTIONAL);
}
pub fn check_rgb_types<const R: u8, const G: u8, const B: u8>() {
    let t = Rgb::<R, G, B>;
    let is = |c: RgbColor| check(c.red == R && c.green == G && c.blue == B, RUNTIME);
    is(Rgb::<R, G, B>::DYNAMIC);
    is(RgbColor::from(t));
    is(ColorSpec::into_dynamic(t));
    is_rgb(t.into(), R, G, B, ERASED);
    is_rgb(some(t.into()), R, G, B, OPTIONAL);
    is_rgb(some(<Rgb<R, G, B> as ComptimeColor>::VALUE), R, G, B, OPTIONAL);
}
pub fn check_css_triple() {
    let c: CssColor = any("css colour");
    check(same_value(&c.rgb(), &RgbColor::from(c)), TRIPLE);
}
pub fn check_erased() {
    let c: Color = any("type-erased colour");
    let o: Option<Color> = c.into();
    check(same_value(&some(o), &c), OPTIONAL);
    let d: Color = c.into();
    check(same_value(&d, &c), ERASED);
    let p: Option<Color> = any("optional colour");
    let q: Option<Color> = p.into();
    check(same_value(&q, &p), OPTIONAL);
}
pub fn check_no_colour() {
    let o: Option<Color> = NoColor.into();
    check(o.is_none(), ABSENT);
    check(<NoColor as ComptimeColor>::VALUE.is_none(), ABSENT);
}
