//! The whole interface from a program with no std, no prelude, no unsafe code, a renamed dependency and names of its own
//! that are the same as the library's.
// editions: 2018 2021 2024
#![no_std]
#![no_implicit_prelude]
#![forbid(unsafe_code)]
#![allow(dead_code, non_snake_case, unused_macros, non_camel_case_types)]
extern crate colorz as paint;
extern crate core as base;

mod colorz {}
mod xterm {}
mod css {}
mod ansi {}
mod rgb {}
mod core {}
mod std {}
struct Black;
struct Aqua;
struct XtermColor;
struct Color;
struct Style;
struct u8;
struct Option;
struct Some;
macro_rules! stringify {
    () => {};
}
macro_rules! concat {
    () => {};
}

use base::fmt;
use paint::Colorize as _;

// the code macro as a value, a constant, a type, a pattern and an argument
const AQUA: paint::xterm::BrightCyan = paint::xterm_from_code!(14);
static FIRST: paint::xterm::Black = paint::xterm_from_code!(0);
type Last = paint::xterm_from_code!(255);
fn pattern(x: paint::xterm::BrightRed) {
    match x {
        paint::xterm_from_code!(9) => {}
    }
}
fn argument(f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Display::fmt(&"x".fg(paint::xterm_from_code!(100)).bg(paint::xterm_from_code!(7)), f)
}
fn generic() -> paint::Style<paint::xterm_from_code!(3), Last, paint::NoColor> {
    paint::Style::new().fg(paint::xterm_from_code!(3)).bg(paint::xterm_from_code!(255))
}
mod inner {
    pub mod deeper {
        pub const NAMED: paint_::xterm::Blue = paint_::xterm_from_code!(4);
        use crate::paint as paint_;
    }
}
macro_rules! through {
    ($n:tt) => {
        paint::xterm_from_code!($n)
    };
}
const THROUGH: paint::xterm::Red = through!(1);

// everything offered for constants
const STYLE: paint::Style<paint::ansi::Red, paint::css::Teal, paint::rgb::Rgb<1, 2, 3>> = paint::Style::new()
    .fg(paint::ansi::Red)
    .bg(paint::css::Teal)
    .underline_color(paint::rgb::Rgb::<1, 2, 3>);
static VALUE: paint::StyledValue<&'static str, paint::ansi::Red, paint::css::Teal, paint::rgb::Rgb<1, 2, 3>> = paint::StyledValue::new("x", STYLE, base::option::Option::None);

// settings, parsing, queries
fn settings() -> bool {
    use paint::mode::{self, Mode, Stream};
    mode::set_coloring_mode(Mode::Always);
    mode::set_default_stream(Stream::Stdout);
    let _ = mode::get_coloring_mode();
    let _ = mode::get_default_stream();
    let _: base::result::Result<Mode, mode::ModeFromStrError> = base::str::FromStr::from_str("always");
    let _: base::result::Result<Stream, mode::StreamFromStrError> = base::str::FromStr::from_str("stdout");
    let _: base::result::Result<paint::Color, paint::ParseColorError> = base::str::FromStr::from_str("#ff0000");
    mode::should_color(base::option::Option::None, &[mode::ColorKind::Ansi]) && STYLE.should_color(base::option::Option::Some(Stream::Stderr))
}
fn direct(f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Display::fmt(&STYLE.apply(), f)?;
    fmt::Display::fmt(&STYLE.clear(), f)?;
    fmt::Display::fmt(&paint::Style::clear_all(), f)
}
