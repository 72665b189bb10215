//! C24: mode and stream names parse case-insensitively and exactly.
use crate::util::*;
use crate::vh::*;
use colorz::mode::{Mode, Stream};

const MODE: &str = "a mode parses from exactly its name, in any letter case";
const STREAM: &str = "a stream parses from exactly its name, in any letter case";
const AGREE: &str = "parsing from a string and from bytes agree";

fn is_name(s: &[u8], lower: &[u8], upper: &[u8]) -> bool {
    if s.len() != lower.len() {
        return false;
    }
    let mut i = 0;
    while i < lower.len() {
        if branch((s[i] != lower[i]) & (s[i] != upper[i])) {
            return false;
        }
        i += 1;
    }
    true
}
fn mode(s: &[u8]) -> Option<Mode> {
    if is_name(s, b"detect", b"DETECT") {
        Some(Mode::Detect)
    } else if is_name(s, b"always", b"ALWAYS") {
        Some(Mode::Always)
    } else if is_name(s, b"never", b"NEVER") {
        Some(Mode::Never)
    } else {
        None
    }
}
fn stream(s: &[u8]) -> Option<Stream> {
    if is_name(s, b"stdout", b"STDOUT") {
        Some(Stream::Stdout)
    } else if is_name(s, b"stderr", b"STDERR") {
        Some(Stream::Stderr)
    } else if is_name(s, b"always", b"ALWAYS") {
        Some(Stream::AlwaysColor)
    } else if is_name(s, b"never", b"NEVER") {
        Some(Stream::NeverColor)
    } else {
        None
    }
}
pub fn check_mode_bytes() {
    let s: &[u8] = any("text");
    let got = Mode::from_ascii_bytes(s);
    let want = mode(s);
    match (got, want) {
        (Ok(a), Some(b)) => check(a == b, MODE),
        (Err(_), None) => check(true, MODE),
        _ => check(false, MODE),
    }
}
pub fn check_stream_bytes() {
    let s: &[u8] = any("text");
    let got = Stream::from_ascii_bytes(s);
    let want = stream(s);
    match (got, want) {
        (Ok(a), Some(b)) => check(a == b, STREAM),
        (Err(_), None) => check(true, STREAM),
        _ => check(false, STREAM),
    }
}
pub fn check_mode_string() {
    let s: &str = any("text");
    let got = s.parse::<Mode>();
    let want = mode(s.as_bytes());
    match (got, want) {
        (Ok(a), Some(b)) => check(a == b, MODE),
        (Err(_), None) => check(true, MODE),
        _ => check(false, MODE),
    }
}
pub fn check_stream_string() {
    let s: &str = any("text");
    let got = s.parse::<Stream>();
    let want = stream(s.as_bytes());
    match (got, want) {
        (Ok(a), Some(b)) => check(a == b, STREAM),
        (Err(_), None) => check(true, STREAM),
        _ => check(false, STREAM),
    }
}
pub fn check_agreement() {
    let s: &str = any("text");
    let (a, b) = (s.parse::<Mode>(), Mode::from_ascii_bytes(s.as_bytes()));
    match (a, b) {
        (Ok(a), Ok(b)) => check(a == b, AGREE),
        (Err(_), Err(_)) => check(true, AGREE),
        _ => check(false, AGREE),
    }
    let (a, b) = (s.parse::<Stream>(), Stream::from_ascii_bytes(s.as_bytes()));
    match (a, b) {
        (Ok(a), Ok(b)) => check(a == b, AGREE),
        (Err(_), Err(_)) => check(true, AGREE),
        _ => check(false, AGREE),
    }
}
/// texts whose length is small when counted in a byte or two
pub fn check_long_texts_s24() {
    let s: &str = any_text("text", if shard() & 1 == 0 { 256 } else { 65_536 } + shard() / 2);
    check(s.parse::<Mode>().is_err(), MODE);
    check(s.parse::<Stream>().is_err(), STREAM);
    check(Mode::from_ascii_bytes(s.as_bytes()).is_err(), MODE);
    check(Stream::from_ascii_bytes(s.as_bytes()).is_err(), STREAM);
}
