//! C02: settings read back exactly what was last set.
use crate::util::*;
use crate::vh::*;
use colorz::mode::*;
use colorz::{Color, Colorize, Effect, EffectFlags, OptionalColor, Style, StyledValue};
use core::fmt::{self, Display, Debug};

fn stored(m: Mode) -> Mode {
    if cfg!(feature = "strip-colors") {
        Mode::Never
    } else {
        m
    }
}

pub fn check_initial() {
    check(get_coloring_mode() == stored(Mode::Detect), "before any set the mode reads Detect (Never with strip-colors)");
    check(get_default_stream() == Stream::AlwaysColor, "before any set the default stream reads AlwaysColor");
}

pub fn check_setters() {
    let (m0, m): (Mode, Mode) = (any("first mode"), any("mode"));
    let (d0, d): (Stream, Stream) = (any("first default stream"), any("default stream"));
    set_coloring_mode(m0);
    set_default_stream(d0);
    check(get_coloring_mode() == stored(m0), "the mode reads what was last set (Never with strip-colors)");
    check(get_default_stream() == d0, "the default stream reads what was last set");
    set_coloring_mode(m);
    check(get_coloring_mode() == stored(m), "the mode reads what was last set (Never with strip-colors)");
    check(get_default_stream() == d0, "setting the mode leaves the default stream alone");
    set_default_stream(d);
    check(get_default_stream() == d, "the default stream reads what was last set");
    check(get_coloring_mode() == stored(m), "setting the default stream leaves the mode alone");
    check(get_coloring_mode() == stored(m), "reading the mode twice gives the same");
    check(get_default_stream() == d, "reading the default stream twice gives the same");
}

fn start() -> (Mode, Stream) {
    let (m, d): (Mode, Stream) = (any("mode"), any("default stream"));
    set_coloring_mode(m);
    set_default_stream(d);
    (m, d)
}
fn finish((m, d): (Mode, Stream)) {
    check(get_coloring_mode() == stored(m), "only the setters change the coloring mode");
    check(get_default_stream() == d, "only the setters change the default stream");
}

pub fn check_should_color() {
    let s = start();
    let stream: Option<Stream> = any("stream");
    let _ = should_color(stream, &[any("kind 0"), any("kind 1")]);
    finish(s);
    let _ = should_color(any("stream of a second query"), &[any("kind 2")]);
    finish(s);
}
pub fn check_formatting<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = start();
    let st = any_style::<F, B, U>(&[Effect::Underline]);
    let o = new_sink(true);
    let _ = Display::fmt(&st.apply(), formatter(o));
    let o = new_sink(true);
    let _ = Display::fmt(&st.clear(), formatter(o));
    finish(s);
}
pub fn check_style_query<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = start();
    let st = any_style::<F, B, U>(&[]);
    let _ = st.should_color(any::<Option<Stream>>("stream"));
    finish(s);
}
pub fn check_styled_values<T: Display, F: OptionalColor>() {
    let s = start();
    let v: StyledValue<T, F> = StyledValue::new(any("value"), style_of(any("foreground"), colorz::NoColor, colorz::NoColor, EffectFlags::new()), any("stream"));
    let o = new_sink(false);
    let _ = Display::fmt(&v, formatter(o));
    finish(s);
}
pub fn check_styled_values_debug<T: Debug, F: OptionalColor>() {
    let s = start();
    let v: StyledValue<T, F> = StyledValue::new(any("value"), style_of(any("foreground"), colorz::NoColor, colorz::NoColor, EffectFlags::new()), any("stream"));
    let o = new_sink(false);
    let _ = Debug::fmt(&v, formatter(o));
    finish(s);
    let v = v.red().bold().stream(Stream::Stdout).stream_opt(any("other stream"));
    finish(s);
    let _ = v;
}
pub fn check_values() {
    let s = start();
    let e: EffectFlags = any_effects();
    let x = Style::new().effect_flags(e).with(any("effect"));
    let _ = (x.is_plain(), Style::clear_all(), "text".red());
    let _: Option<Color> = any::<Color>("color").into();
    finish(s);
    let o = new_sink(true);
    let _ = Display::fmt(&Style::clear_all(), formatter(o));
    finish(s);
}
pub fn check_parsing() {
    let s = start();
    let _ = Mode::from_ascii_bytes(any::<&[u8]>("text"));
    finish(s);
}
pub fn check_parsing_streams() {
    let s = start();
    let _ = Stream::from_ascii_bytes(any::<&[u8]>("text"));
    finish(s);
}
pub fn check_parsing_colors() {
    let s = start();
    let _ = any::<&str>("text").parse::<Color>();
    finish(s);
}
#[cfg(feature = "std")]
pub fn check_reading_the_environment() {
    let s = start();
    let _ = Mode::from_env();
    finish(s);
}
#[cfg(feature = "std")]
pub fn check_from_env_is_a_setter_of_the_mode_only() {
    let (m, d) = start();
    let want = Mode::from_env();
    set_coloring_mode_from_env();
    check(get_default_stream() == d, "applying the environment leaves the default stream alone");
    let want = match want {
        Some(x) => x,
        None => m,
    };
    check(get_coloring_mode() == stored(want), "applying the environment sets the mode that was read, or leaves it alone");
}

/// two threads: `me` is interrupted at any one of its atomic operations, or not at all, by the whole of `other`
fn race<R, O: FnOnce()>(me: impl FnOnce() -> R, other: O) -> R {
    meanwhile(other);
    let r = me();
    joined();
    r
}
fn reads(m: Mode, d: Stream, what: &str) {
    check(get_coloring_mode() == stored(m), what);
    check(get_default_stream() == d, what);
}
pub fn check_racing_setters_of_both() {
    let _ = start();
    let (m, d): (Mode, Stream) = (any("mode set by one thread"), any("default stream set by the other"));
    if branch(any("the setter of the mode is interrupted")) {
        race(|| set_coloring_mode(m), move || set_default_stream(d));
    } else {
        race(|| set_default_stream(d), move || set_coloring_mode(m));
    }
    reads(m, d, "two threads that set different settings both succeed");
}
pub fn check_racing_setters_of_one() {
    let (m0, d0) = start();
    let (m, n): (Mode, Mode) = (any("mode set by one thread"), any("mode set by the other"));
    race(|| set_coloring_mode(m), move || set_coloring_mode(n));
    let r = get_coloring_mode();
    check(r == stored(m) || r == stored(n), "of two modes set at the same time one is read");
    check(get_default_stream() == d0, "setting the mode leaves the default stream alone");
    set_coloring_mode(m0);
    let (d, e): (Stream, Stream) = (any("default stream set by one thread"), any("default stream set by the other"));
    race(|| set_default_stream(d), move || set_default_stream(e));
    let r = get_default_stream();
    check(r == d || r == e, "of two default streams set at the same time one is read");
    check(get_coloring_mode() == stored(m0), "setting the default stream leaves the mode alone");
}
fn racing_readers((m0, d0): (Mode, Stream)) {
    let (m, d): (Mode, Stream) = (any("mode set by the other thread"), any("default stream set by the other thread"));
    if branch(any("the other thread sets the mode")) {
        let r = if branch(any("the mode is being read")) {
            race(get_coloring_mode, move || set_coloring_mode(m))
        } else {
            let r = race(get_default_stream, move || set_coloring_mode(m));
            check(r == d0, "a reader of the default stream reads what was last set");
            stored(m)
        };
        check(r == stored(m0) || r == stored(m), "a reader of the mode reads what was last set");
        reads(m, d0, "what another thread sets while a setting is read stays set");
    } else {
        let r = if branch(any("the mode is being read")) {
            let r = race(get_coloring_mode, move || set_default_stream(d));
            check(r == stored(m0), "a reader of the mode reads what was last set");
            d
        } else {
            race(get_default_stream, move || set_default_stream(d))
        };
        check(r == d0 || r == d, "a reader of the default stream reads what was last set");
        reads(m0, d, "what another thread sets while a setting is read stays set");
    }
}
pub fn check_racing_readers() {
    racing_readers(start())
}
pub fn check_racing_first_readers() {
    racing_readers((Mode::Detect, Stream::AlwaysColor))
}
fn racing_query((m0, d0): (Mode, Stream)) {
    let (m, d): (Mode, Stream) = (any("mode set by the other thread"), any("default stream set by the other thread"));
    let stream: Option<Stream> = any("stream");
    let kinds = [any("kind 0"), any("kind 1")];
    if branch(any("the other thread sets the mode")) {
        race(|| should_color(stream, &kinds), move || set_coloring_mode(m));
        reads(m, d0, "what another thread sets during a query stays set");
    } else {
        race(|| should_color(stream, &kinds), move || set_default_stream(d));
        reads(m0, d, "what another thread sets during a query stays set");
    }
}
pub fn check_racing_queries() {
    racing_query(start())
}
pub fn check_racing_first_queries() {
    racing_query((Mode::Detect, Stream::AlwaysColor))
}
pub fn check_racing_formatting<T: Display, F: OptionalColor>() {
    let (m0, d0) = start();
    let v: StyledValue<T, F> = StyledValue::new(any("value"), style_of(any("foreground"), colorz::NoColor, colorz::NoColor, EffectFlags::new()), any("stream"));
    let (m, d): (Mode, Stream) = (any("mode set by the other thread"), any("default stream set by the other thread"));
    let o = new_sink(false);
    if branch(any("the other thread sets the mode")) {
        let _ = race(|| Display::fmt(&v, formatter(o)), move || set_coloring_mode(m));
        reads(m, d0, "what another thread sets during formatting stays set");
    } else {
        let _ = race(|| Display::fmt(&v, formatter(o)), move || set_default_stream(d));
        reads(m0, d, "what another thread sets during formatting stays set");
    }
}
#[cfg(feature = "std")]
pub fn check_racing_environment() {
    let (m0, _) = start();
    let want = match Mode::from_env() {
        Some(x) => x,
        None => m0,
    };
    let d: Stream = any("default stream set by the other thread");
    if branch(any("the environment is being applied")) {
        race(set_coloring_mode_from_env, move || set_default_stream(d));
    } else {
        race(|| set_default_stream(d), set_coloring_mode_from_env);
    }
    reads(want, d, "applying the environment and setting the default stream both succeed");
}
