//! The documented precedence, as a function of the settings and of what probing a stream reported.
use crate::vh::*;
use colorz::mode::{ColorKind, Mode, Stream};

/// the decision the k-th probe result of a stream (0: stdout, 1: stderr) implies
pub fn implied(s: usize, k: usize, kinds: &[ColorKind]) -> bool {
    if cfg!(feature = "supports-color") {
        let mut i = 0;
        while i < kinds.len() {
            let field = match kinds[i] {
                ColorKind::Ansi => 1,
                ColorKind::Xterm => 2,
                ColorKind::Rgb => 3,
                _ => 0,
            };
            if field != 0 && !(branch(probe(s, k, 0)) && branch(probe(s, k, field))) {
                return false;
            }
            i += 1;
        }
        true
    } else if cfg!(feature = "std") {
        probe(s, k, 0)
    } else {
        true
    }
}
/// no information about the terminal can matter
pub fn needs_no_probe(kinds: &[ColorKind]) -> bool {
    if cfg!(feature = "supports-color") {
        let mut i = 0;
        while i < kinds.len() {
            match kinds[i] {
                ColorKind::Ansi | ColorKind::Xterm | ColorKind::Rgb => return false,
                _ => (),
            }
            i += 1;
        }
        true
    } else {
        !cfg!(feature = "std")
    }
}
/// the stream a decision comes down to, given the settings: Ok(decided) or Err(stream to detect)
pub fn settled(mode: Mode, default: Stream, stream: Option<Stream>) -> Result<bool, usize> {
    if cfg!(feature = "strip-colors") {
        return Ok(false);
    }
    match mode {
        Mode::Always => return Ok(true),
        Mode::Never => return Ok(false),
        _ => (),
    }
    let s = match stream {
        Some(s) => s,
        None => default,
    };
    match s {
        Stream::AlwaysColor => Ok(true),
        Stream::NeverColor => Ok(false),
        Stream::Stdout => Err(0),
        _ => Err(1),
    }
}
/// the documented decision on a process that has probed nothing before
pub fn documented(mode: Mode, default: Stream, stream: Option<Stream>, kinds: &[ColorKind]) -> bool {
    match settled(mode, default, stream) {
        Ok(d) => d,
        Err(s) => {
            if probe_count(s) == 0 {
                check(needs_no_probe(kinds), "a stream to detect is decided by that stream's own state");
                true
            } else {
                implied(s, 0, kinds)
            }
        }
    }
}
/// all kind lists up to length 4, the length given by the shard
pub fn any_kinds() -> [ColorKind; 4] {
    [any("kind 0"), any("kind 1"), any("kind 2"), any("kind 3")]
}
