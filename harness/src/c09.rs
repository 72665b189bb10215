//! C09: all control output is complete, well-formed SGR sequences.
use crate::util::*;
use crate::vh::*;
use colorz::{ColorSpec, Effect, OptionalColor, Style, WriteColor};
use core::fmt;

const SEQ: &str = "the output is a concatenation of complete, well-formed SGR sequences";
const ARGS: &str = "the arguments are non-empty decimal numbers separated by single semicolons";
const WRAP: &str = "the escape form is the argument form of the same layer wrapped in ESC [ and m";

pub fn check_apply_s8<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let e = style_effects();
    shard_effects(e);
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), e);
    let o = out(|f| fmt::Display::fmt(&s.apply(), f));
    check(sgr_ok(o), SEQ);
}
pub fn check_clear_s8<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let e = style_effects();
    shard_effects(e);
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), e);
    let o = out(|f| fmt::Display::fmt(&s.clear(), f));
    check(sgr_ok(o), SEQ);
}
pub fn check_debug_forms<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = any_style::<F, B, U>(&SOME_EFFECTS);
    let o = out(|f| fmt::Debug::fmt(&s.apply(), f));
    check(sgr_ok(o), SEQ);
    let o = out(|f| fmt::Debug::fmt(&s.clear(), f));
    check(sgr_ok(o), SEQ);
}
pub fn check_clear_all() {
    let o = out(|f| fmt::Display::fmt(&Style::clear_all(), f));
    check(sgr_ok(o), SEQ);
    let o = out(|f| fmt::Debug::fmt(&Style::clear_all(), f));
    check(sgr_ok(o), SEQ);
}
fn pair(args: &'static str, escape: &'static str) {
    let a = text(args);
    let e = text(escape);
    check(args_ok(a), ARGS);
    check(sgr_ok(e), SEQ);
    check(same(e, text3("\x1b[", args, "m")), WRAP);
}
pub fn check_effect_accessors() {
    let e: Effect = any("effect");
    pair(e.apply_args(), e.apply_escape());
    pair(e.clear_args(), e.clear_escape());
}
pub fn check_spec_concrete_ColorSpec<C: ColorSpec>() {
    let c: C = any("color");
    pair(c.foreground_args(), c.foreground_escape());
    pair(c.background_args(), c.background_escape());
    pair(c.underline_args(), c.underline_escape());
}
fn written<C: WriteColor>(a: impl Fn(C, &mut fmt::Formatter<'_>) -> fmt::Result, e: impl Fn(C, &mut fmt::Formatter<'_>) -> fmt::Result, c: C) {
    let o = out(|f| a(c, f));
    check(args_ok(o), ARGS);
    let x = out(|f| e(c, f));
    check(sgr_ok(x), SEQ);
    let w = text("\x1b[");
    let _ = a(c, plain_formatter(w));
    let _ = fmt::Write::write_str(plain_formatter(w), "m");
    check(same(x, w), WRAP);
}
pub fn check_written_concrete_WriteColor<C: WriteColor>() {
    all_layers::<C>();
}
pub fn check_written_spec_concrete_ColorSpec<C: ColorSpec>() {
    all_layers::<C>();
}
fn all_layers<C: WriteColor>() {
    let c: C = any("color");
    written(|c: C, f| c.fmt_foreground_args(f), |c: C, f| c.fmt_foreground(f), c);
    written(|c: C, f| c.fmt_background_args(f), |c: C, f| c.fmt_background(f), c);
    written(|c: C, f| c.fmt_underline_args(f), |c: C, f| c.fmt_underline(f), c);
}
macro_rules! ansi_consts {
    ($($n:ident $i:literal $fg:literal $bg:literal)*) => {
        pub fn check_ansi_constants() { $( {
            use colorz::ansi::$n as X;
            pair(X::FOREGROUND_ARGS, X::FOREGROUND_ESCAPE);
            pair(X::BACKGROUND_ARGS, X::BACKGROUND_ESCAPE);
        } )* }
    };
}
ansi_all! { ansi_consts }
macro_rules! six {
    ($x:ident) => {
        pair($x::FOREGROUND_ARGS, $x::FOREGROUND_ESCAPE);
        pair($x::BACKGROUND_ARGS, $x::BACKGROUND_ESCAPE);
        pair($x::UNDERLINE_ARGS, $x::UNDERLINE_ESCAPE);
        check(args_ok(text($x::ARGS)), ARGS);
    };
}
macro_rules! xterm_consts {
    ($($i:literal $n:ident)*) => { pub fn check_xterm_constants() { $( { use colorz::xterm::$n as X; six!(X); } )* } };
}
xterm_all! { xterm_consts }
macro_rules! css_consts {
    ($($n:ident $r:literal $g:literal $b:literal)*) => { pub fn check_css_constants() { $( { use colorz::css::$n as X; six!(X); } )* } };
}
css_all! { css_consts }
pub fn check_rgb_constants<const R: u8, const G: u8, const B: u8>() {
    type X<const R: u8, const G: u8, const B: u8> = colorz::rgb::Rgb<R, G, B>;
    pair(X::<R, G, B>::FOREGROUND_ARGS, X::<R, G, B>::FOREGROUND_ESCAPE);
    pair(X::<R, G, B>::BACKGROUND_ARGS, X::<R, G, B>::BACKGROUND_ESCAPE);
    pair(X::<R, G, B>::UNDERLINE_ARGS, X::<R, G, B>::UNDERLINE_ESCAPE);
    check(args_ok(text(X::<R, G, B>::ARGS)), ARGS);
}
pub fn check_runtime_accessors() {
    let a: colorz::ansi::AnsiColor = any("ansi color");
    pair(a.foreground_args(), a.foreground_escape());
    pair(a.background_args(), a.background_escape());
    pair(a.underline_args(), a.underline_escape());
    let x: colorz::xterm::XtermColor = any("xterm color");
    pair(x.foreground_args(), x.foreground_escape());
    pair(x.background_args(), x.background_escape());
    pair(x.underline_args(), x.underline_escape());
    check(args_ok(text(x.args())), ARGS);
}
pub fn check_runtime_accessors_css() {
    let x: colorz::css::CssColor = any("css color");
    pair(x.foreground_args(), x.foreground_escape());
    pair(x.background_args(), x.background_escape());
    pair(x.underline_args(), x.underline_escape());
    check(args_ok(text(x.args())), ARGS);
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    use colorz::{css::CssColor, rgb::RgbColor, xterm::XtermColor};
    let s = Style::new();
    match i {
        0 => fmt::Display::fmt(&s.fg(CssColor::Red).bold().underline().apply(), f),
        1 => fmt::Display::fmt(&s.bg(XtermColor::from_code(20)).hide().reverse().clear(), f),
        2 => RgbColor { red: 1, green: 22, blue: 203 }.fmt_background(f),
        _ => fmt::Display::fmt(&Style::clear_all(), f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
