//! C10: runtime RGB prints exact decimal channels.
use crate::util::*;
use crate::vh::*;
use colorz::rgb::RgbColor;
use colorz::WriteColor;
use core::fmt::{self, Write};

/// `<head>;2;r;g;b` in plain decimal
pub fn rgb_args(x: usize, head: &str, c: RgbColor) {
    let f = plain_formatter(x);
    let _ = f.write_str(head);
    let _ = f.write_str("2;");
    put_dec(x, c.red);
    let _ = f.write_str(";");
    put_dec(x, c.green);
    let _ = f.write_str(";");
    put_dec(x, c.blue);
}
fn layer(head: &str, args: impl Fn(RgbColor, &mut fmt::Formatter<'_>) -> fmt::Result, escape: impl Fn(RgbColor, &mut fmt::Formatter<'_>) -> fmt::Result) {
    let c: RgbColor = RgbColor { red: any("red"), green: any("green"), blue: any("blue") };
    let o = out(|f| args(c, f));
    let x = new_sink(false);
    rgb_args(x, head, c);
    check(same(o, x), "the arguments carry the exact decimal channels on the right layer");
    let o = out(|f| escape(c, f));
    let x = text("\x1b[");
    rgb_args(x, head, c);
    let _ = plain_formatter(x).write_str("m");
    check(same(o, x), "the escape form wraps the same arguments");
}
pub fn check_foreground() {
    layer("38;", |c, f| c.fmt_foreground_args(f), |c, f| c.fmt_foreground(f));
}
pub fn check_background() {
    layer("48;", |c, f| c.fmt_background_args(f), |c, f| c.fmt_background(f));
}
pub fn check_underline() {
    layer("58;", |c, f| c.fmt_underline_args(f), |c, f| c.fmt_underline(f));
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match i {
        0 => RgbColor { red: 1, green: 2, blue: 3 }.fmt_foreground(f),
        1 => RgbColor { red: 201, green: 2, blue: 3 }.fmt_foreground(f),
        2 => RgbColor { red: 1, green: 20, blue: 255 }.fmt_background_args(f),
        _ => RgbColor { red: 1, green: 2, blue: 103 }.fmt_underline(f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
