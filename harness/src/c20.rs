//! C20: standard on/off codes.
use crate::vh::*;
use colorz::Effect;

/// the standard table, written from ECMA-48 / common terminal practice
const fn table(e: Effect) -> (&'static str, &'static str, &'static str, &'static str) {
    match e {
        Effect::Bold => ("1", "22", "\x1b[1m", "\x1b[22m"),
        Effect::Dimmed => ("2", "22", "\x1b[2m", "\x1b[22m"),
        Effect::Italic => ("3", "23", "\x1b[3m", "\x1b[23m"),
        Effect::Underline => ("4", "24", "\x1b[4m", "\x1b[24m"),
        Effect::Blink => ("5", "25", "\x1b[5m", "\x1b[25m"),
        Effect::BlinkFast => ("6", "25", "\x1b[6m", "\x1b[25m"),
        Effect::Reversed => ("7", "27", "\x1b[7m", "\x1b[27m"),
        Effect::Hidden => ("8", "28", "\x1b[8m", "\x1b[28m"),
        Effect::Strikethrough => ("9", "29", "\x1b[9m", "\x1b[29m"),
        Effect::DoubleUnderline => ("21", "24", "\x1b[21m", "\x1b[24m"),
        Effect::Overline => ("53", "55", "\x1b[53m", "\x1b[55m"),
        Effect::SuperScript => ("73", "75", "\x1b[73m", "\x1b[75m"),
        Effect::SubScript => ("74", "75", "\x1b[74m", "\x1b[75m"),
    }
}

pub fn check_codes() {
    let e: Effect = any("effect");
    let t = table(e);
    check(e.apply_args() == t.0, "the effect's on code is the standard one");
    check(e.clear_args() == t.1, "the effect's off code is the standard one");
    check(e.apply_escape() == t.2, "the effect's on sequence carries the standard code");
    check(e.clear_escape() == t.3, "the effect's off sequence carries the standard code");
}

pub fn check_distinct() {
    let a: Effect = any("effect a");
    let b: Effect = any("effect b");
    if branch(a != b) {
        check(a.apply_args() != b.apply_args(), "distinct effects have distinct on codes");
    }
}
