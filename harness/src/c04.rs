//! C04: detection is per stream, cached faithfully, race tolerant.
use crate::decide::*;
use crate::vh::*;
use colorz::mode::*;

fn stream(i: usize) -> Stream {
    if i == 0 {
        Stream::Stdout
    } else {
        Stream::Stderr
    }
}
fn want(s: usize, kinds: &[ColorKind]) -> bool {
    if probe_count(s) == 0 {
        check(needs_no_probe(kinds), "a stream to detect is decided by that stream's own state");
        return true;
    }
    implied(s, 0, kinds)
}
#[cfg(not(feature = "strip-colors"))]
fn query(s: usize, kinds: &[ColorKind], what: &str) {
    let got = branch(should_color(Some(stream(s)), kinds));
    let w = branch(want(s, kinds));
    check(got == w, what);
}

/// a history of decisions, in any order of streams; the first probe of a stream settles all later ones
#[cfg(not(feature = "strip-colors"))]
pub fn check_history_s8() {
    set_coloring_mode(Mode::Detect);
    let s = shard();
    query(s & 1, &[any("kind 0")], "the first decision is the one its stream's state implies");
    query(s >> 1 & 1, &[any("kind 1")], "a later decision equals the one the first probe of its stream implies");
    query(s >> 2 & 1, &[any("kind 2")], "a later decision equals the one the first probe of its stream implies");
    query(s & 1, &[any("kind 3")], "a later decision equals the one the first probe of its stream implies");
}
/// the settings in between do not matter to detection
#[cfg(not(feature = "strip-colors"))]
pub fn check_settings_between_s2() {
    let s = shard();
    set_coloring_mode(Mode::Detect);
    query(s, &[any("kind 0")], "the first decision is the one its stream's state implies");
    set_coloring_mode(any("mode"));
    set_default_stream(any("default stream"));
    let _ = should_color(any("stream of a query in between"), &[any("kind 1")]);
    set_coloring_mode(Mode::Detect);
    query(s, &[any("kind 2")], "a later decision equals the one the first probe of its stream implies");
    query(1 - s, &[any("kind 3")], "the other stream is decided by its own state");
}
/// what other threads may do at the same time
#[cfg(not(feature = "strip-colors"))]
pub fn collect_should_color() {
    concurrent(true);
    let s: Option<Stream> = any("stream");
    let _ = should_color(s, &[any("kind")]);
}
/// while other threads decide colours too
#[cfg(not(feature = "strip-colors"))]
pub fn check_race_s2() {
    set_coloring_mode(Mode::Detect);
    concurrent(true);
    let s = shard();
    race(s, &[any("kind 0")]);
    race(s, &[any("kind 1")]);
}
#[cfg(not(feature = "strip-colors"))]
fn race(s: usize, kinds: &[ColorKind]) {
    let got = branch(should_color(Some(stream(s)), kinds));
    if needs_no_probe(kinds) {
        check(got, "a query that asks for nothing is coloured");
        return;
    }
    let n = probe_count(s);
    check(n > 0, "a stream to detect is decided by that stream's own state");
    let mut ok = false;
    let mut i = 0;
    while i < n {
        if branch(implied(s, i, kinds)) == got {
            ok = true;
        }
        i += 1;
    }
    check(ok, "a decision is one that some probe result of the same stream implies, whatever other threads do");
}
#[cfg(feature = "strip-colors")]
pub fn check_never_detects() {
    let s: Option<Stream> = any("stream");
    check(!should_color(s, &[any("kind")]), "strip-colors decides without detection");
    check(probe_count(0) == 0 && probe_count(1) == 0, "strip-colors probes nothing");
}
/// what another thread has found out holds for all
#[cfg(not(feature = "strip-colors"))]
pub fn check_threads_s4() {
    set_coloring_mode(Mode::Detect);
    let (s, o) = (shard() & 1, shard() >> 1);
    let of = stream(o);
    let kind = any("kind the other thread asks for");
    meanwhile(move || {
        let _ = should_color(Some(of), &[kind]);
    });
    joined();
    query(s, &[any("kind 0")], "a decision equals the one the first probe of its stream implies, whichever thread made it");
    query(o, &[any("kind 1")], "a decision equals the one the first probe of its stream implies, whichever thread made it");
}
