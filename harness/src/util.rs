//! Shared construction helpers for the rules.
#![allow(dead_code, unused_imports, unused_macros)]
use crate::vh::*;
use colorz::{Effect, EffectFlags, NoColor, OptionalColor, Style, WriteColor};
use core::fmt::{self, Display, Write};

pub const EFFECTS: [Effect; 13] = [
    Effect::Bold,
    Effect::Dimmed,
    Effect::Italic,
    Effect::Underline,
    Effect::DoubleUnderline,
    Effect::Blink,
    Effect::BlinkFast,
    Effect::Reversed,
    Effect::Hidden,
    Effect::Strikethrough,
    Effect::Overline,
    Effect::SuperScript,
    Effect::SubScript,
];

/// a symbolic effect set ranging over all subsets of `of`
pub fn effects_among(name: &str, of: &[Effect]) -> EffectFlags {
    let mut e = EffectFlags::new();
    let mut i = 0;
    while i < of.len() {
        e = e.with(of[i]);
        i += 1;
    }
    any_subset(name, e)
}
pub fn any_effects() -> EffectFlags {
    effects_among("effects", &EFFECTS)
}
/// restrict a run to one of eight parts of the effect sets
pub fn shard_effects(e: EffectFlags) {
    let s = shard();
    assume(branch(e.is(Effect::Underline)) == (s & 1 != 0));
    assume(branch(e.is(Effect::DoubleUnderline)) == (s & 2 != 0));
    assume(branch(e.is(Effect::Bold)) == (s & 4 != 0));
}
pub fn style_of<F: OptionalColor, B: OptionalColor, U: OptionalColor>(f: F, b: B, u: U, e: EffectFlags) -> Style<F, B, U> {
    let mut s = Style::new().fg(f).bg(b).underline_color(u);
    s.foreground = f;
    s.background = b;
    s.underline_color = u;
    s.effects = e;
    s
}
pub const fn on_code(e: Effect) -> &'static str {
    match e {
        Effect::Bold => "1",
        Effect::Dimmed => "2",
        Effect::Italic => "3",
        Effect::Underline => "4",
        Effect::Blink => "5",
        Effect::BlinkFast => "6",
        Effect::Reversed => "7",
        Effect::Hidden => "8",
        Effect::Strikethrough => "9",
        Effect::DoubleUnderline => "21",
        Effect::Overline => "53",
        Effect::SuperScript => "73",
        Effect::SubScript => "74",
    }
}
pub const fn off_code(e: Effect) -> &'static str {
    match e {
        Effect::Bold | Effect::Dimmed => "22",
        Effect::Italic => "23",
        Effect::Underline | Effect::DoubleUnderline => "24",
        Effect::Blink | Effect::BlinkFast => "25",
        Effect::Reversed => "27",
        Effect::Hidden => "28",
        Effect::Strikethrough => "29",
        Effect::Overline => "55",
        Effect::SuperScript | Effect::SubScript => "75",
    }
}
/// the text of one SGR sequence
pub fn put(sink: usize, parts: &[&str]) {
    let f = plain_formatter(sink);
    let mut i = 0;
    while i < parts.len() {
        let _ = f.write_str(parts[i]);
        i += 1;
    }
}
/// decimal text of a byte, without leading zeros
pub fn put_dec(sink: usize, x: u8) {
    if x >= 100 {
        put_digit(sink, x / 100);
    }
    if x >= 10 {
        put_digit(sink, x / 10 % 10);
    }
    put_digit(sink, x % 10);
}
pub fn has_underline(e: EffectFlags) -> bool {
    e.is(Effect::Underline) || e.is(Effect::DoubleUnderline)
}

/// run the block once per effect (unrolled)
#[macro_export]
macro_rules! for_effects {
    ($e:ident => $b:block) => {
        $crate::for_effects!(@ $e $b Bold Dimmed Italic Underline DoubleUnderline Blink BlinkFast Reversed Hidden Strikethrough Overline SuperScript SubScript)
    };
    (@ $e:ident $b:block $($n:ident)*) => { $( { let $e = colorz::Effect::$n; $b } )* };
}
/// write the on (off) sequence of every member
macro_rules! put_effects {
    ($s:expr, $f:expr, $($n:ident $code:literal)*) => { $( if $s.is(colorz::Effect::$n) { let _ = $f.write_str(concat!("\x1b[", $code, "m")); } )* };
}
pub fn put_on(x: usize, s: EffectFlags) {
    let f = plain_formatter(x);
    put_effects!(s, f, Bold "1" Dimmed "2" Italic "3" Underline "4" Blink "5" BlinkFast "6" Reversed "7" Hidden "8"
        Strikethrough "9" DoubleUnderline "21" Overline "53" SuperScript "73" SubScript "74");
}
pub fn put_off(x: usize, s: EffectFlags) {
    let f = plain_formatter(x);
    put_effects!(s, f, Bold "22" Dimmed "22" Italic "23" Underline "24" Blink "25" BlinkFast "25" Reversed "27" Hidden "28"
        Strikethrough "29" DoubleUnderline "24" Overline "55" SuperScript "75" SubScript "75");
}

/// run a formatting operation on a working writer without options
pub fn out(op: impl FnOnce(&mut fmt::Formatter<'_>) -> fmt::Result) -> usize {
    let o = new_sink(false);
    let r = op(plain_formatter(o));
    check(r.is_ok(), "writing succeeds on a working writer");
    o
}
/// the output consisting of this text
pub fn text(s: &str) -> usize {
    let o = new_sink(false);
    let _ = plain_formatter(o).write_str(s);
    o
}
pub fn text2(a: &str, b: &str) -> usize {
    let o = text(a);
    let _ = plain_formatter(o).write_str(b);
    o
}
pub fn text3(a: &str, b: &str, c: &str) -> usize {
    let o = text2(a, b);
    let _ = plain_formatter(o).write_str(c);
    o
}
/// any style whose effects are among the given ones
pub fn any_style<F: OptionalColor, B: OptionalColor, U: OptionalColor>(of: &[Effect]) -> Style<F, B, U> {
    style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), effects_among("effects", of))
}
pub const SOME_EFFECTS: [Effect; 4] = [Effect::Bold, Effect::Underline, Effect::DoubleUnderline, Effect::SubScript];
/// all effect sets in the run that covers them (and in thorough runs), a part of them elsewhere
pub fn style_effects() -> EffectFlags {
    if feature("full") || feature("thorough") {
        any_effects()
    } else {
        effects_among("effects", &SOME_EFFECTS)
    }
}
pub const MORE_EFFECTS: [Effect; 6] =
    [Effect::Bold, Effect::Italic, Effect::Underline, Effect::DoubleUnderline, Effect::SuperScript, Effect::SubScript];
/// a larger part of the effect sets in thorough runs, the given part otherwise
pub fn effects_or(of: &[Effect]) -> EffectFlags {
    if feature("thorough") {
        effects_among("effects", &MORE_EFFECTS)
    } else {
        effects_among("effects", of)
    }
}
/// $m!{ method Effect ... }
macro_rules! effect_methods {
    ($m:ident $($x:tt)*) => { $m! { $($x)* bold Bold dimmed Dimmed italics Italic underline Underline double_underline DoubleUnderline blink Blink
        blink_fast BlinkFast reverse Reversed hide Hidden strikethrough Strikethrough overline Overline superscript SuperScript subscript SubScript } };
}
macro_rules! into_effect_methods {
    ($m:ident $($x:tt)*) => { $m! { $($x)* bold into_bold Bold dimmed into_dimmed Dimmed italics into_italics Italic underline into_underline Underline
        double_underline into_double_underline DoubleUnderline blink into_blink Blink blink_fast into_blink_fast BlinkFast reverse into_reverse Reversed
        hide into_hide Hidden strikethrough into_strikethrough Strikethrough overline into_overline Overline superscript into_superscript SuperScript
        subscript into_subscript SubScript } };
}
macro_rules! ansi_methods {
    ($m:ident $($x:tt)*) => { $m! { $($x)*
        Black black into_black on_black into_on_black
        Red red into_red on_red into_on_red
        Green green into_green on_green into_on_green
        Yellow yellow into_yellow on_yellow into_on_yellow
        Blue blue into_blue on_blue into_on_blue
        Magenta magenta into_magenta on_magenta into_on_magenta
        Cyan cyan into_cyan on_cyan into_on_cyan
        White white into_white on_white into_on_white
        BrightBlack bright_black into_bright_black on_bright_black into_on_bright_black
        BrightRed bright_red into_bright_red on_bright_red into_on_bright_red
        BrightGreen bright_green into_bright_green on_bright_green into_on_bright_green
        BrightYellow bright_yellow into_bright_yellow on_bright_yellow into_on_bright_yellow
        BrightBlue bright_blue into_bright_blue on_bright_blue into_on_bright_blue
        BrightMagenta bright_magenta into_bright_magenta on_bright_magenta into_on_bright_magenta
        BrightCyan bright_cyan into_bright_cyan on_bright_cyan into_on_bright_cyan
        BrightWhite bright_white into_bright_white on_bright_white into_on_bright_white
    } };
}
