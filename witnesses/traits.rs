//! Colour types of another crate. Without cfg(bad) only the legal uses of the traits remain.
#![allow(dead_code)]
use colorz::mode::ColorKind;
use colorz::{ansi, Color, ColorSpec, ComptimeColor, OptionalColor, WriteColor};
use core::fmt;

#[derive(Debug, Clone, Copy)]
pub struct Writes;
#[derive(Debug, Clone, Copy)]
pub struct Spec;
#[derive(Debug, Clone, Copy)]
pub struct Maybe;
#[derive(Debug, Clone, Copy)]
pub struct Comptime;
#[derive(Debug, Clone, Copy)]
pub struct Wrap<C>(C);

// bad: a colour writer of another crate
#[cfg(bad)]
impl WriteColor for Writes {
    fn color_kind(self) -> ColorKind {
        ColorKind::Ansi
    }
    fn fmt_foreground_args(self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("31")
    }
    fn fmt_background_args(self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("41")
    }
    fn fmt_underline_args(self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("58;5;1")
    }
}
// bad: a reference to a type of another crate as a colour writer
#[cfg(bad)]
impl<'a> WriteColor for &'a Writes {
    fn color_kind(self) -> ColorKind {
        ColorKind::Ansi
    }
    fn fmt_foreground_args(self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("31")
    }
    fn fmt_background_args(self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("41")
    }
    fn fmt_underline_args(self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("58;5;1")
    }
}
// bad: a single-colour specification of another crate
#[cfg(bad)]
impl ColorSpec for Spec {
    type Dynamic = ansi::AnsiColor;
    const KIND: ColorKind = ColorKind::Ansi;
    fn into_dynamic(self) -> ansi::AnsiColor {
        ansi::AnsiColor::Red
    }
    fn foreground_args(self) -> &'static str {
        "31"
    }
    fn background_args(self) -> &'static str {
        "41"
    }
    fn underline_args(self) -> &'static str {
        "58;5;1"
    }
    fn foreground_escape(self) -> &'static str {
        "\x1b[31m"
    }
    fn background_escape(self) -> &'static str {
        "\x1b[41m"
    }
    fn underline_escape(self) -> &'static str {
        "\x1b[58;5;1m"
    }
}
// bad: an optional colour of another crate
#[cfg(bad)]
impl OptionalColor for Maybe {
    type Color = ansi::Red;
    fn get(self) -> Option<ansi::Red> {
        None
    }
}
// bad: a wrapper of another crate around a colour, as an optional colour
#[cfg(bad)]
impl<C: OptionalColor> OptionalColor for Wrap<C> {
    type Color = C::Color;
    fn get(self) -> Option<C::Color> {
        self.0.get()
    }
}
// bad: a compile-time colour of another crate
#[cfg(bad)]
impl ComptimeColor for Comptime {
    const VALUE: Option<Color> = None;
}
// end

fn needs_write<C: WriteColor>(_: C) {}
fn needs_spec<C: ColorSpec>(_: C) {}
fn needs_optional<C: OptionalColor>(_: C) {}
fn needs_comptime<C: ComptimeColor>(_: C) {}
pub fn legal() {
    needs_write(ansi::Red);
    needs_spec(ansi::Red);
    needs_optional(ansi::Red);
    needs_comptime(ansi::Red);
    needs_write(Color::from(ansi::Red));
    needs_optional(Some(ansi::Red));
    needs_optional(colorz::NoColor);
}
pub fn legal_reads(f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let _: ColorKind = WriteColor::color_kind(ansi::Red);
    ansi::Red.fmt_foreground(f)
}
