//! C01: the colouring decision follows the documented precedence.
use crate::decide::*;
use crate::util::*;
use crate::vh::*;
use colorz::mode::*;
use colorz::OptionalColor;

fn stored(m: Mode) -> Mode {
    if cfg!(feature = "strip-colors") {
        Mode::Never
    } else {
        m
    }
}

pub fn check_query_s5() {
    let mode: Mode = any("mode");
    let default: Stream = any("default stream");
    let stream: Option<Stream> = any("stream of the value");
    set_coloring_mode(mode);
    set_default_stream(default);
    let all = any_kinds();
    let kinds = &all[..shard()];
    let got = branch(should_color(stream, kinds));
    let want = branch(documented(mode, default, stream, kinds));
    check(got == want, "should_color gives the documented decision");
    check(get_coloring_mode() == stored(mode), "should_color leaves the coloring mode alone");
    check(get_default_stream() == default, "should_color leaves the default stream alone");
}

/// many colours at once: a list of the given length whose last kind is a kind of its own
fn long_list<const N: usize>() {
    let mode: Mode = any("mode");
    let stream: Option<Stream> = any("stream of the value");
    set_coloring_mode(mode);
    let mut kinds = [any("every kind but the last"); N];
    kinds[N - 1] = any("the last kind");
    let got = branch(should_color(stream, &kinds));
    let want = branch(documented(mode, Stream::AlwaysColor, stream, &kinds[N - 2..]));
    check(got == want, "should_color gives the documented decision for long lists of kinds");
}
pub fn check_long_lists_s8() {
    match shard() {
        0 => long_list::<8>(),
        1 => long_list::<16>(),
        2 => long_list::<17>(),
        3 => long_list::<33>(),
        4 => long_list::<65>(),
        5 => long_list::<255>(),
        6 => long_list::<256>(),
        _ => long_list::<257>(),
    }
}

pub fn check_query_without_any_setting() {
    let stream: Option<Stream> = any("stream of the value");
    let kinds = [any("kind 0")];
    let got = branch(should_color(stream, &kinds));
    let want = branch(documented(Mode::Detect, Stream::AlwaysColor, stream, &kinds));
    check(got == want, "should_color gives the documented decision before any setting");
}

pub fn check_style_query<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let mode: Mode = any("mode");
    let default: Stream = any("default stream");
    let stream: Option<Stream> = any("stream of the value");
    set_coloring_mode(mode);
    set_default_stream(default);
    let s = any_style::<F, B, U>(&SOME_EFFECTS);
    let kinds = [s.foreground.color_kind(), s.background.color_kind(), s.underline_color.color_kind()];
    let got = branch(s.should_color(stream));
    let want = branch(documented(mode, default, stream, &kinds));
    check(got == want, "Style::should_color gives the documented decision for the style's colours");
    check(get_coloring_mode() == stored(mode), "Style::should_color leaves the coloring mode alone");
    check(get_default_stream() == default, "Style::should_color leaves the default stream alone");
}
/// the decision follows the settings at the moment of the query, whatever was asked before
pub fn check_query_history_s5() {
    set_coloring_mode(any("earlier mode"));
    set_default_stream(any("earlier default stream"));
    let kinds = [any("kind")];
    let _ = should_color(any("earlier stream"), &kinds);
    let mode: Mode = any("mode");
    let default: Stream = any("default stream");
    set_coloring_mode(mode);
    set_default_stream(default);
    let stream = match shard() {
        0 => None,
        1 => Some(Stream::Stdout),
        2 => Some(Stream::Stderr),
        3 => Some(Stream::AlwaysColor),
        _ => Some(Stream::NeverColor),
    };
    let got = branch(should_color(stream, &kinds));
    let want = branch(documented(mode, default, stream, &kinds));
    check(got == want, "should_color gives the documented decision, whatever was asked before");
}
