//! The public types are plain values: each line type-checks only while the type has these markers.
#![allow(dead_code)]
use colorz::{ansi, css, mode, rgb, xterm};
use colorz::{Color, Effect, EffectFlags, NoColor, ParseColorError, Style, StyledValue};

fn value<T: Copy + Send + Sync + Unpin + core::panic::UnwindSafe + core::panic::RefUnwindSafe + core::fmt::Debug + 'static>() {}
fn equal<T: Copy + Eq + Send + Sync + 'static>() {}
fn hashed<T: Copy + Eq + core::hash::Hash + Send + Sync + 'static>() {}

pub fn plain_values() {
    value::<Color>();
    value::<Effect>();
    value::<EffectFlags>();
    value::<Style>();
    value::<Style<ansi::Red, Option<css::CssColor>, NoColor>>();
    value::<rgb::RgbColor>();
    value::<rgb::Rgb<1, 2, 3>>();
    value::<mode::Mode>();
    value::<mode::Stream>();
    value::<mode::ColorKind>();
}
pub fn shared<T: Copy + Send + Sync, F: Copy + Send + Sync>(x: StyledValue<T, F>) -> impl Copy + Send + Sync {
    x
}
pub fn compared() {
    equal::<NoColor>();
    equal::<mode::Mode>();
    equal::<ParseColorError>();
    equal::<mode::ModeFromStrError>();
    equal::<mode::StreamFromStrError>();
    equal::<mode::ColorKind>();
}
pub fn usable_as_keys() {
    hashed::<Color>();
    hashed::<Option<Color>>();
    hashed::<Effect>();
    hashed::<EffectFlags>();
    hashed::<ansi::AnsiColor>();
    hashed::<ansi::Red>();
    hashed::<css::CssColor>();
    hashed::<css::Red>();
    hashed::<xterm::XtermColor>();
    hashed::<xterm::Red>();
    hashed::<rgb::RgbColor>();
    hashed::<rgb::Rgb<1, 2, 3>>();
    hashed::<mode::Stream>();
    hashed::<Style>();
    hashed::<Style<ansi::Red, Option<css::CssColor>, rgb::RgbColor>>();
}
