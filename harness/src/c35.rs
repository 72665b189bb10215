//! C35: colours, effects, styles and settings are plain values: equality, copies and hashes are structural.
use crate::util::*;
use crate::vh::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::mode::{ColorKind, Mode, ModeFromStrError, Stream, StreamFromStrError};
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{Color, Effect, EffectFlags, NoColor, ParseColorError, Style, StyledValue};
use core::hash::{Hash, Hasher};

const EQUAL: &str = "two values are equal exactly when they are the same value";
const NE: &str = "not equal is the opposite of equal";
const COPY: &str = "a clone is the same value";
const HASH: &str = "equal values hash equally";

/// records what is hashed
struct Rec {
    words: [u64; 24],
    n: usize,
}
impl Rec {
    fn push(&mut self, x: u64) {
        self.words[self.n] = x;
        self.n += 1;
    }
}
macro_rules! word {
    ($($f:ident $t:ty)*) => { $( fn $f(&mut self, x: $t) { self.push(x as u64) } )* };
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.push(b[i] as u64);
            i += 1;
        }
    }
    word! { write_u8 u8 write_u16 u16 write_u32 u32 write_u64 u64 write_usize usize write_i8 i8 write_i16 i16 write_i32 i32 write_i64 i64 write_isize isize }
}
fn hashed<T: Hash>(x: &T) -> Rec {
    let mut r = Rec { words: [0; 24], n: 0 };
    x.hash(&mut r);
    r
}
fn compare<T: PartialEq + Clone>(a: &T, b: &T) -> bool {
    let e = branch(*a == *b);
    check(e == branch(same_value(a, b)), EQUAL);
    check(branch(*a != *b) != e, NE);
    let c = a.clone();
    check(same_value(&c, a), COPY);
    e
}
fn compare_hash<T: PartialEq + Clone + Hash>(a: &T, b: &T) {
    if compare(a, b) {
        check(same_value(&hashed(a), &hashed(b)), HASH);
    }
}
macro_rules! finite {
    ($($f:ident $t:ty;)*) => { $( pub fn $f() {
        let (a, b): ($t, $t) = (any("a"), any("b"));
        compare_hash(&a, &b);
    } )* };
}
finite! {
    check_effect Effect;
    check_ansi AnsiColor;
    check_css CssColor;
    check_kind ColorKind;
    check_stream Stream;
    check_optional_ansi Option<AnsiColor>;
}
/// all pairs, the first one among a sixteenth of the codes
pub fn check_xterm_s16() {
    let (a, b): (XtermColor, XtermColor) = (any("a"), any("b"));
    assume(branch((a as u8) as usize / 16 == shard()));
    compare_hash(&a, &b);
}
pub fn check_settings() {
    let (a, b): (Mode, Mode) = (any("a"), any("b"));
    compare(&a, &b);
}
pub fn check_errors() {
    let (a, b): (ParseColorError, ParseColorError) = (any("a"), any("b"));
    compare(&a, &b);
    compare(&ModeFromStrError, &ModeFromStrError);
    compare(&StreamFromStrError, &StreamFromStrError);
    compare(&NoColor, &NoColor);
    compare_hash(&Rgb::<1, 2, 3>, &Rgb::<1, 2, 3>);
    compare_hash(&colorz::ansi::Red, &colorz::ansi::Red);
    compare_hash(&colorz::xterm::Red, &colorz::xterm::Red);
    compare_hash(&colorz::css::Red, &colorz::css::Red);
}
pub fn check_effect_sets() {
    let (a, b) = (effects_among("a", &SOME_EFFECTS), effects_among("b", &SOME_EFFECTS));
    compare_hash(&a, &b);
    // sets that differ in one effect, whatever the others are
    for_effects! { e => { let b = a.toggled(e); check(branch(a == b) == false, EQUAL); check(branch(a != b), NE); } };
    let b = a;
    check(branch(a == b), EQUAL);
}
const FEW: [u8; 3] = [0, 1, 255];
const SOME: [u8; 10] = [0, 1, 2, 4, 8, 16, 32, 64, 128, 255];
fn among(name: &str, of: &[u8]) -> u8 {
    let x: u8 = any(name);
    let mut hit = false;
    for &k in of {
        hit = hit | branch(x == k);
    }
    assume(hit);
    x
}
/// colours that differ in one channel, for every pair of values of it
pub fn check_rgb_s3() {
    let mut a = RgbColor { red: 1, green: 0, blue: 255 };
    let mut b = a;
    let (x, y): (u8, u8) = (any("a"), any("b"));
    match shard() {
        0 => (a.red, b.red) = (x, y),
        1 => (a.green, b.green) = (x, y),
        _ => (a.blue, b.blue) = (x, y),
    }
    compare_hash(&a, &b);
    compare_hash(&Color::Rgb(a), &Color::Rgb(b));
}
/// colours that differ in two channels
pub fn check_rgb_two_s3() {
    let (a1, a2) = (among("a.1", &SOME), among("a.2", &SOME));
    let (b1, b2) = (among("b.1", &SOME), among("b.2", &SOME));
    let (a, b) = match shard() {
        0 => (RgbColor { red: a1, green: a2, blue: 3 }, RgbColor { red: b1, green: b2, blue: 3 }),
        1 => (RgbColor { red: a1, green: 3, blue: a2 }, RgbColor { red: b1, green: 3, blue: b2 }),
        _ => (RgbColor { red: 3, green: a1, blue: a2 }, RgbColor { red: 3, green: b1, blue: b2 }),
    };
    compare_hash(&a, &b);
}
pub fn check_rgb_together() {
    let a = RgbColor { red: among("a.red", &FEW), green: among("a.green", &FEW), blue: among("a.blue", &FEW) };
    let b = RgbColor { red: among("b.red", &FEW), green: among("b.green", &FEW), blue: among("b.blue", &FEW) };
    compare_hash(&a, &b);
}
/// type-erased colours: every one against some of each family
const SOME_COLOURS: [Color; 8] = [
    Color::Ansi(AnsiColor::Red),
    Color::Ansi(AnsiColor::Default),
    Color::Xterm(XtermColor::from_code(0)),
    Color::Xterm(XtermColor::from_code(9)),
    Color::Css(CssColor::Red),
    Color::Css(CssColor::AliceBlue),
    Color::Rgb(RgbColor { red: 255, green: 0, blue: 0 }),
    Color::Rgb(RgbColor { red: 0, green: 0, blue: 1 }),
];
pub fn check_colour_s8() {
    let a: Color = any("a");
    if let Color::Rgb(c) = a {
        assume(branch(c.red == 0) || branch(c.red == 255));
        assume(branch(c.green == 0) || branch(c.green == 255));
        assume(branch(c.blue == 0) || branch(c.blue == 1));
    }
    let b = SOME_COLOURS[shard()];
    compare_hash(&a, &b);
    compare_hash(&b, &a);
}
pub fn check_optional_colour() {
    let (a, b): (Option<Color>, Option<Color>) = (any("a"), any("b"));
    match (a, b) {
        (Some(_), Some(_)) => (),
        _ => compare_hash(&a, &b),
    }
}
type Slot = Option<AnsiColor>;
fn slot(name: &str) -> Slot {
    let x: Slot = any(name);
    assume(branch(x.is_none()) || branch(x == Some(AnsiColor::Red)) || branch(x == Some(AnsiColor::Default)));
    x
}
/// styles that differ in one slot, for every value of it
pub fn check_style_s4() {
    let a: Style<Slot, Slot, Slot> = any_style(&SOME_EFFECTS);
    let mut b = a;
    match shard() {
        0 => b.foreground = any("b"),
        1 => b.background = any("b"),
        2 => b.underline_color = any("b"),
        _ => b.effects = effects_among("b", &SOME_EFFECTS),
    }
    compare_hash(&a, &b);
}
pub fn check_style_together() {
    let few = [Effect::Bold, Effect::Underline];
    let a = style_of(slot("a.fg"), slot("a.bg"), slot("a.ul"), effects_among("a", &few));
    let b = style_of(slot("b.fg"), slot("b.bg"), slot("b.ul"), effects_among("b", &few));
    compare_hash(&a, &b);
}
/// clones of the types without equality
pub fn check_clones() {
    let s: Style = any_style(&SOME_EFFECTS);
    let v = StyledValue::new(7u32, s, any("stream"));
    let w = v.clone();
    check(same_value(&v, &w), COPY);
    let i = any_effects().iter();
    let j = i.clone();
    check(same_value(&i, &j), COPY);
}
