//! C22: styling methods on values set the named slot and keep the rest.
use crate::util::*;
use crate::vh::*;
use colorz::mode::Stream;
use colorz::{ansi, Colorize, Effect, EffectFlags, NoColor, OptionalColor, Style, StyledValue};

const SLOT: &str = "the method sets the slot it names to that colour and keeps the rest";
const EFFECT: &str = "the method adds the effect it names and keeps the rest";
const STREAM: &str = "a stream setter changes the stream only";
const FRESH: &str = "a fresh styled value has a plain style and no stream";
const GIVEN: &str = "a styled value made with a style has that style and no stream";
const BORROW: &str = "the borrowing and the consuming variant agree";

fn is<T, F: OptionalColor, B: OptionalColor, U: OptionalColor>(
    v: &StyledValue<T, F, B, U>,
    value: &T,
    f: F,
    b: B,
    u: U,
    e: EffectFlags,
    stream: Option<Stream>,
    what: &str,
) {
    check(same_value(&v.value, value), what);
    check(same_value(&v.style.foreground, &f), what);
    check(same_value(&v.style.background, &b), what);
    check(same_value(&v.style.underline_color, &u), what);
    check(v.style.effects == e, what);
    check(same_value(&v.stream, &stream), what);
}
/// a borrowing method keeps a reference to the value itself
fn borrowed<T: ?Sized, F: OptionalColor, B: OptionalColor, U: OptionalColor>(
    v: &StyledValue<&T, F, B, U>,
    value: &T,
    f: F,
    b: B,
    u: U,
    e: EffectFlags,
    what: &str,
) {
    check(core::ptr::eq(v.value, value), what);
    check(same_value(&v.style.foreground, &f), what);
    check(same_value(&v.style.background, &b), what);
    check(same_value(&v.style.underline_color, &u), what);
    check(v.style.effects == e, what);
    check(v.stream.is_none(), what);
}
const N: NoColor = NoColor;
const E: EffectFlags = EffectFlags::new();
const fn one(e: Effect) -> EffectFlags {
    EffectFlags::new().with(e)
}

pub fn check_fresh<T: Copy, F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let t: T = any("value");
    is(&Colorize::into_style(t), &t, N, N, N, E, None, FRESH);
    borrowed(&Colorize::style(&t), &t, N, N, N, E, FRESH);
    let s = any_style::<F, B, U>(&EFFECTS);
    is(&t.into_style_with(s), &t, s.foreground, s.background, s.underline_color, s.effects, None, GIVEN);
    borrowed(&t.style_with(s), &t, s.foreground, s.background, s.underline_color, s.effects, GIVEN);
    let st: Option<Stream> = any("stream");
    is(&StyledValue::new(t, s, st), &t, s.foreground, s.background, s.underline_color, s.effects, st, "new keeps the value, style and stream given");
}
pub fn check_value_colors<T: Copy, C: OptionalColor>() {
    let t: T = any("value");
    let c: C = any("colour");
    is(&t.into_fg(c), &t, c, N, N, E, None, SLOT);
    is(&t.into_bg(c), &t, N, c, N, E, None, SLOT);
    is(&t.into_underline_color(c), &t, N, N, c, E, None, SLOT);
    borrowed(&t.fg(c), &t, c, N, N, E, SLOT);
    borrowed(&t.bg(c), &t, N, c, N, E, SLOT);
    borrowed(&t.underline_color(c), &t, N, N, c, E, SLOT);
}
macro_rules! value_ansi {
    ($($x:ident $m:ident $into:ident $on:ident $into_on:ident)*) => {
        pub fn check_value_ansi<T: Copy>() {
            let t: T = any("value");
            $(
                borrowed(&t.$m(), &t, ansi::$x, N, N, E, SLOT);
                borrowed(&t.$on(), &t, N, ansi::$x, N, E, SLOT);
                is(&t.$into(), &t, ansi::$x, N, N, E, None, SLOT);
                is(&t.$into_on(), &t, N, ansi::$x, N, E, None, SLOT);
            )*
        }
        pub fn check_styled_ansi<T: Copy, F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
            let (t, s, st) = start::<T, F, B, U>();
            let v = StyledValue::new(t, s, st);
            $(
                is(&v.$m(), &t, ansi::$x, s.background, s.underline_color, s.effects, st, SLOT);
                is(&v.$on(), &t, s.foreground, ansi::$x, s.underline_color, s.effects, st, SLOT);
            )*
        }
    };
}
ansi_methods! { value_ansi }
fn start<T: Copy, F: OptionalColor, B: OptionalColor, U: OptionalColor>() -> (T, Style<F, B, U>, Option<Stream>) {
    (any("value"), any_style(&EFFECTS), any("stream"))
}
macro_rules! value_effects {
    ($($m:ident $into:ident $e:ident)*) => {
        pub fn check_value_effects<T: Copy>() {
            let t: T = any("value");
            $(
                borrowed(&t.$m(), &t, N, N, N, one(Effect::$e), EFFECT);
                is(&t.$into(), &t, N, N, N, one(Effect::$e), None, EFFECT);
            )*
        }
        pub fn check_styled_effects<T: Copy, F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
            let (t, s, st) = start::<T, F, B, U>();
            let v = StyledValue::new(t, s, st);
            $(
                {
                    let w = v.$m();
                    is(&w, &t, s.foreground, s.background, s.underline_color, w.style.effects, st, EFFECT);
                    for_effects! { x => { check(w.style.effects.is(x) == if x == Effect::$e { true } else { s.effects.is(x) }, EFFECT); } };
                }
            )*
        }
    };
}
into_effect_methods! { value_effects }
pub fn check_styled_colors<T: Copy, F: OptionalColor, B: OptionalColor, U: OptionalColor, C: OptionalColor>() {
    let (t, s, st) = start::<T, F, B, U>();
    let c: C = any("colour");
    let v = StyledValue::new(t, s, st);
    is(&v.fg(c), &t, c, s.background, s.underline_color, s.effects, st, SLOT);
    is(&v.bg(c), &t, s.foreground, c, s.underline_color, s.effects, st, SLOT);
    is(&v.underline_color(c), &t, s.foreground, s.background, c, s.effects, st, SLOT);
}
pub fn check_streams<T: Copy, F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let (t, s, st) = start::<T, F, B, U>();
    let v = StyledValue::new(t, s, st);
    let n: Stream = any("new stream");
    is(&v.stream(n), &t, s.foreground, s.background, s.underline_color, s.effects, Some(n), STREAM);
    let n: Option<Stream> = any("new optional stream");
    is(&v.stream_opt(n), &t, s.foreground, s.background, s.underline_color, s.effects, n, STREAM);
}
/// wrapping a styled value leaves the inner one as it is
pub fn check_wrapping<T: Copy, F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let (t, s, st) = start::<T, F, B, U>();
    let v = StyledValue::new(t, s, st);
    borrowed(&v.style(), &v, N, N, N, E, FRESH);
    is(&v.into_style(), &v, N, N, N, E, None, FRESH);
    let w = v.into_style().red().bold();
    is(&w, &v, ansi::Red, N, N, one(Effect::Bold), None, FRESH);
}
/// both variants print the same
pub fn check_variants<T: Copy + core::fmt::Display, C: OptionalColor>() {
    let t: T = any("value");
    let c: C = any("colour");
    let show = |a: &dyn core::fmt::Display, b: &dyn core::fmt::Display| check(same(out(|f| a.fmt(f)), out(|f| b.fmt(f))), BORROW);
    show(&t.fg(c), &t.into_fg(c));
    show(&t.bg(c).underline(), &t.into_bg(c).underline());
    show(&t.underline_color(c).underline(), &t.into_underline_color(c).underline());
    show(&t.red(), &t.into_red());
    show(&t.bold(), &t.into_bold());
}
