//! C36: the messages of parse errors name exactly the words that parse.
use crate::util::*;
use crate::vh::*;
use colorz::mode::{Mode, ModeFromStrError, Stream, StreamFromStrError};
use core::fmt::Display;

const NAMED: &str = "the error message names a word exactly when that word parses";
const SOME: &str = "the error message is not empty";
const WORDS: [&str; 8] = ["detect", "always", "never", "stdout", "stderr", "auto", "on", "off"];

fn letter(c: u16) -> bool {
    (c >= b'a' as u16 && c <= b'z' as u16) || (c >= b'A' as u16 && c <= b'Z' as u16)
}
/// the output contains the word on its own
fn names(sink: usize, word: &[u8]) -> bool {
    let mut at = 0;
    while text_at(sink, at) != 256 {
        let mut k = 0;
        while k < word.len() && text_at(sink, at + k) == word[k] as u16 {
            k += 1;
        }
        if k == word.len() && !letter(text_at(sink, at + k)) && (at == 0 || !letter(text_at(sink, at - 1))) {
            return true;
        }
        at += 1;
    }
    false
}
fn message<E: Display>(e: E) -> usize {
    let plain = new_sink(false);
    let _ = e.fmt(plain_formatter(plain));
    check(!is_empty(plain), SOME);
    plain
}
pub fn check_mode() {
    let m = message(ModeFromStrError);
    for w in WORDS {
        let parses = match w.parse::<Mode>() {
            Ok(_) => true,
            Err(_) => false,
        };
        check(names(m, w.as_bytes()) == branch(parses), NAMED);
    }
}
pub fn check_stream() {
    let m = message(StreamFromStrError);
    for w in WORDS {
        let parses = match w.parse::<Stream>() {
            Ok(_) => true,
            Err(_) => false,
        };
        check(names(m, w.as_bytes()) == branch(parses), NAMED);
    }
}
