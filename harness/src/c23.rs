//! C23: colour parsing accepts exactly the documented forms.
use crate::util::*;
use crate::vh::*;
use colorz::ansi::AnsiColor;
use colorz::xterm::XtermColor;
use colorz::{Color, ParseColorError};

const FORM: &str = "a documented form parses to the documented colour";
const ERROR: &str = "a string of no documented form gives the documented error";

fn equals(s: &[u8], t: &[u8]) -> bool {
    if s.len() != t.len() {
        return false;
    }
    let mut i = 0;
    while i < t.len() {
        if branch(s[i] != t[i]) {
            return false;
        }
        i += 1;
    }
    true
}
fn hex(x: u8) -> Option<u8> {
    if branch((x >= b'0') & (x <= b'9')) {
        Some(x - b'0')
    } else if branch((x >= b'a') & (x <= b'f')) {
        Some(x - b'a' + 10)
    } else if branch((x >= b'A') & (x <= b'F')) {
        Some(x - b'A' + 10)
    } else {
        None
    }
}
fn digit(x: u8) -> Option<u32> {
    if branch((x >= b'0') & (x <= b'9')) {
        Some((x - b'0') as u32)
    } else {
        None
    }
}
enum Want {
    Xterm(u32),
    Rgb(u8, u8, u8),
    Ansi(AnsiColor),
    Bad(ParseColorError),
}
macro_rules! named {
    ($($m:ident $e:ident $t:literal)*) => {
        fn name(s: &[u8]) -> Option<AnsiColor> { $( if equals(s, $t) { return Some(AnsiColor::$e); } )* None }
    };
}
named! {
    n Black b"black" n Red b"red" n Green b"green" n Yellow b"yellow" n Blue b"blue" n Magenta b"magenta" n Magenta b"purple" n Cyan b"cyan" n White b"white"
    n BrightBlack b"bright black" n BrightRed b"bright red" n BrightGreen b"bright green" n BrightYellow b"bright yellow" n BrightBlue b"bright blue"
    n BrightMagenta b"bright magenta" n BrightCyan b"bright cyan" n BrightWhite b"bright white"
}
fn pair(a: u8, b: u8) -> Option<u8> {
    match hex(a) {
        None => None,
        Some(a) => match hex(b) {
            None => None,
            Some(b) => Some(a * 16 + b),
        },
    }
}
fn documented(s: &[u8]) -> Want {
    if s.len() > 0 && branch(s[0] == b'#') {
        if s.len() == 7 {
            return match (pair(s[1], s[2]), pair(s[3], s[4]), pair(s[5], s[6])) {
                (Some(r), Some(g), Some(b)) => Want::Rgb(r, g, b),
                _ => Want::Bad(ParseColorError::InvalidHexDigit),
            };
        }
        if s.len() == 2 {
            return match hex(s[1]) {
                Some(a) => Want::Xterm(a as u32),
                None => Want::Bad(ParseColorError::InvalidHexDigit),
            };
        }
        if s.len() == 3 {
            return match pair(s[1], s[2]) {
                Some(a) => Want::Xterm(a as u32),
                None => Want::Bad(ParseColorError::InvalidHexDigit),
            };
        }
        return Want::Bad(ParseColorError::UnknownColor);
    }
    if s.len() >= 1 && s.len() <= 3 {
        let mut n = 0;
        let mut i = 0;
        let mut all = true;
        while i < s.len() {
            match digit(s[i]) {
                Some(d) => n = n * 10 + d,
                None => all = false,
            }
            i += 1;
        }
        if all {
            return if branch(n <= 255) { Want::Xterm(n) } else { Want::Bad(ParseColorError::U8Overflow) };
        }
    }
    match name(s) {
        Some(c) => Want::Ansi(c),
        None => Want::Bad(ParseColorError::UnknownColor),
    }
}
fn judge(got: Result<Color, ParseColorError>, want: Want) {
    match want {
        Want::Xterm(n) => match got {
            Ok(Color::Xterm(c)) => check(c as u8 as u32 == n, FORM),
            _ => check(false, FORM),
        },
        Want::Rgb(r, g, b) => match got {
            Ok(Color::Rgb(c)) => {
                check(c.red == r, FORM);
                check(c.green == g, FORM);
                check(c.blue == b, FORM);
            }
            _ => check(false, FORM),
        },
        Want::Ansi(a) => match got {
            Ok(Color::Ansi(c)) => check(c == a, FORM),
            _ => check(false, FORM),
        },
        Want::Bad(e) => match got {
            Err(x) => check(x == e, ERROR),
            _ => check(false, ERROR),
        },
    }
}
pub fn check_strings() {
    let s: &str = any("text");
    judge(s.parse::<Color>(), documented(s.as_bytes()));
}
/// texts whose length is small when counted in a byte or two
pub fn check_long_strings_s33() {
    let s: &str = any_text("text", LONG[shard() & 1] + shard() / 2);
    judge(s.parse::<Color>(), Want::Bad(ParseColorError::UnknownColor));
}
const LONG: [usize; 2] = [256, 65_536];
