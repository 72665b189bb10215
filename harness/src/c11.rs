//! C11: compile-time RGB equals runtime RGB.
use crate::util::*;
use crate::vh::*;
use colorz::rgb::{Rgb, RgbColor};
use colorz::{ColorSpec, ComptimeColor, WriteColor};
use core::fmt;

fn same_text(s: &str, op: impl Fn(&mut fmt::Formatter<'_>) -> fmt::Result, what: &str) {
    let o = out(|f| op(f));
    check(same(text(s), o), what);
}
pub fn check_constants<const R: u8, const G: u8, const B: u8>() {
    let c = RgbColor { red: R, green: G, blue: B };
    let w = "the constant equals what the runtime colour writes on that layer";
    same_text(Rgb::<R, G, B>::FOREGROUND_ARGS, |f| c.fmt_foreground_args(f), w);
    same_text(Rgb::<R, G, B>::BACKGROUND_ARGS, |f| c.fmt_background_args(f), w);
    same_text(Rgb::<R, G, B>::UNDERLINE_ARGS, |f| c.fmt_underline_args(f), w);
    same_text(Rgb::<R, G, B>::FOREGROUND_ESCAPE, |f| c.fmt_foreground(f), w);
    same_text(Rgb::<R, G, B>::BACKGROUND_ESCAPE, |f| c.fmt_background(f), w);
    same_text(Rgb::<R, G, B>::UNDERLINE_ESCAPE, |f| c.fmt_underline(f), w);
}
pub fn check_layer_free<const R: u8, const G: u8, const B: u8>() {
    let x = text("2;");
    put_dec(x, R);
    let _ = fmt::Write::write_str(plain_formatter(x), ";");
    put_dec(x, G);
    let _ = fmt::Write::write_str(plain_formatter(x), ";");
    put_dec(x, B);
    check(same(text(Rgb::<R, G, B>::ARGS), x), "the layer-free arguments are 2;r;g;b");
}
pub fn check_written<const R: u8, const G: u8, const B: u8>() {
    let c = RgbColor { red: R, green: G, blue: B };
    let t = Rgb::<R, G, B>;
    let w = "the compile-time type writes what the runtime colour writes on that layer";
    let (o, x) = (new_sink(false), new_sink(false));
    let _ = t.fmt_foreground_args(plain_formatter(o));
    let _ = c.fmt_foreground_args(plain_formatter(x));
    check(same(o, x), w);
    let _ = t.fmt_background_args(plain_formatter(o));
    let _ = c.fmt_background_args(plain_formatter(x));
    check(same(o, x), w);
    let _ = t.fmt_underline_args(plain_formatter(o));
    let _ = c.fmt_underline_args(plain_formatter(x));
    check(same(o, x), w);
    let _ = t.fmt_foreground(plain_formatter(o));
    let _ = c.fmt_foreground(plain_formatter(x));
    check(same(o, x), w);
    let _ = t.fmt_background(plain_formatter(o));
    let _ = c.fmt_background(plain_formatter(x));
    check(same(o, x), w);
    let _ = t.fmt_underline(plain_formatter(o));
    let _ = c.fmt_underline(plain_formatter(x));
    check(same(o, x), w);
}
fn channels(c: RgbColor, r: u8, g: u8, b: u8) {
    check(c.red == r && c.green == g && c.blue == b, "the runtime counterpart has exactly those channels");
}
pub fn check_counterpart<const R: u8, const G: u8, const B: u8>() {
    let t = Rgb::<R, G, B>;
    channels(Rgb::<R, G, B>::DYNAMIC, R, G, B);
    channels(t.into_dynamic(), R, G, B);
    channels(t.into(), R, G, B);
    if let Some(colorz::Color::Rgb(c)) = <Rgb<R, G, B> as ComptimeColor>::VALUE {
        channels(c, R, G, B);
    } else {
        check(false, "the compile-time value is that RGB colour");
    }
}
