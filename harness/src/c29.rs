//! C29: what is offered for compile-time use is usable in constants and yields there the value it yields at run time. Losing constness
//! makes this module fail to compile; each constant is then compared with the analysed run-time value.
use crate::util::*;
use crate::vh::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::mode::{Mode, ModeFromStrError, Stream, StreamFromStrError};
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{ansi, css, xterm, Color, ComptimeColor, Effect, EffectFlags, EffectFlagsIter, NoColor, Style, StyledValue};

const SAME: &str = "a constant has the value computed at run time";

macro_rules! both {
    ($($t:ty: $e:expr;)*) => { $( {
        const C: $t = $e;
        static S: $t = $e;
        let r: $t = $e;
        check(same_value(&C, &r), SAME);
        check(same_value(&S, &r), SAME);
    } )* };
}
const fn plain() -> Style<NoColor, NoColor, NoColor> {
    Style::new()
}
type Plain = Style<NoColor, NoColor, NoColor>;
const MIX: EffectFlags = EffectFlags::from_array([Effect::Bold, Effect::SubScript, Effect::Underline]);

pub fn check_styles() {
    both! {
        Plain: Style::new();
        Style<ansi::Red, NoColor, NoColor>: Style::new().fg(ansi::Red);
        Style<NoColor, css::Tan, NoColor>: Style::new().bg(css::Tan);
        Style<NoColor, NoColor, xterm::Navy>: Style::new().underline_color(xterm::Navy);
        Style<AnsiColor, XtermColor, CssColor>: Style::new().fg(AnsiColor::Blue).bg(XtermColor::from_code(200)).underline_color(CssColor::Peru);
        Style<Rgb<1, 2, 3>, RgbColor, NoColor>: Style::new().fg(Rgb::<1, 2, 3>).bg(RgbColor { red: 4, green: 5, blue: 6 });
        Style<Option<Color>, Option<ansi::Red>, NoColor>: Style::new().fg(None).bg(Some(ansi::Red));
        Style<Color, NoColor, NoColor>: Style::new().fg(Color::Css(CssColor::Red));
        Plain: plain().effects_array([]);
        Plain: plain().effects_array([Effect::Overline, Effect::Blink]);
        Plain: plain().effects_array([Effect::Dimmed, Effect::Italic, Effect::Dimmed]);
        Plain: plain().effect_flags(MIX);
        Plain: plain().effect_flags(MIX).clear_effects();
        Plain: plain().with(Effect::Hidden);
        Plain: plain().effect_flags(MIX).without(Effect::Bold);
        Plain: plain().effect_flags(MIX).toggled(Effect::Bold).toggled(Effect::Reversed);
        bool: plain().effect_flags(MIX).is(Effect::Bold);
        bool: plain().effect_flags(MIX).is(Effect::Hidden);
    }
}
macro_rules! style_effects {
    ($($m:ident $e:ident)*) => { $( both! { Plain: plain().$m(); Plain: plain().effect_flags(EffectFlags::all()).$m(); } )* };
}
pub fn check_style_effects() {
    effect_methods! { style_effects }
}
macro_rules! each_effect {
    ($($m:ident $e:ident)*) => { $( both! {
        &'static str: Effect::$e.apply_args();
        &'static str: Effect::$e.clear_args();
        &'static str: Effect::$e.apply_escape();
        &'static str: Effect::$e.clear_escape();
        EffectFlags: EffectFlags::new().with(Effect::$e);
        EffectFlags: EffectFlags::all().without(Effect::$e);
        EffectFlags: MIX.toggled(Effect::$e);
        bool: MIX.is(Effect::$e);
        bool: MIX.is_any(EffectFlags::from_array([Effect::$e]));
        Plain: plain().with(Effect::$e);
        Plain: plain().effect_flags(MIX).toggled(Effect::$e);
        Plain: plain().effect_flags(MIX).without(Effect::$e);
    } )* };
}
pub fn check_effects() {
    effect_methods! { each_effect }
}
pub fn check_effect_sets() {
    both! {
        EffectFlags: EffectFlags::new();
        EffectFlags: EffectFlags::all();
        EffectFlags: EffectFlags::from_array([]);
        EffectFlags: EffectFlags::from_array([Effect::Bold]);
        EffectFlags: EffectFlags::from_array([Effect::SuperScript, Effect::Bold, Effect::SuperScript]);
        bool: EffectFlags::new().is_plain();
        bool: EffectFlags::all().is_plain();
        bool: EffectFlags::all().is_any(EffectFlags::new());
        EffectFlagsIter: MIX.iter();
    }
}
pub fn check_runtime_styles() {
    both! {
        Style: Style::new().const_into_runtime_style();
        Style: Style::new().fg(ansi::Red).bg(xterm::Navy).underline_color(css::Tan).effect_flags(MIX).const_into_runtime_style();
        Style: Style::new().fg(Rgb::<7, 8, 9>).bg(ansi::Default).const_into_runtime_style();
        Option<Color>: <ansi::Red as ComptimeColor>::VALUE;
        Option<Color>: <NoColor as ComptimeColor>::VALUE;
    }
    check(
        same_value(&const { Style::new().fg(ansi::Red).bg(css::Tan).italics().const_into_runtime_style() }, &Style::new().fg(ansi::Red).bg(css::Tan).italics().into_runtime_style()),
        SAME,
    );
}
pub fn check_styled_values() {
    both! {
        StyledValue<u8>: StyledValue::new(7, Style::new(), None);
        StyledValue<&'static str, ansi::Red, css::Tan, xterm::Navy>: StyledValue::new("x", Style::new().fg(ansi::Red).bg(css::Tan).underline_color(xterm::Navy).overline(), Some(Stream::Stderr));
        StyledValue<u8>: StyledValue::new(7, Style::new(), None).stream(Stream::Stdout);
        StyledValue<u8>: StyledValue::new(7, Style::new(), Some(Stream::Stdout)).stream_opt(None);
        StyledValue<u8>: StyledValue::new(7, Style::new(), None).stream_opt(Some(Stream::NeverColor));
        StyledValue<StyledValue<u8>>: StyledValue::new(7, plain(), None).into_style();
    }
    const V: StyledValue<u8, ansi::Red> = StyledValue::new(7, Style::new().fg(ansi::Red), Some(Stream::Stderr));
    const W: StyledValue<&StyledValue<u8, ansi::Red>> = V.style();
    let v: StyledValue<u8, ansi::Red> = StyledValue::new(7, Style::new().fg(ansi::Red), Some(Stream::Stderr));
    let w = v.style();
    check(same_value(W.value, w.value), SAME);
    check(same_value(&W.style, &w.style), SAME);
    check(same_value(&W.stream, &w.stream), SAME);
}
pub fn check_names() {
    both! {
        Result<Mode, ModeFromStrError>: Mode::from_ascii_bytes(b"always");
        Result<Mode, ModeFromStrError>: Mode::from_ascii_bytes(b"nEvEr");
        Result<Mode, ModeFromStrError>: Mode::from_ascii_bytes(b"other");
        Result<Stream, StreamFromStrError>: Stream::from_ascii_bytes(b"stdout");
        Result<Stream, StreamFromStrError>: Stream::from_ascii_bytes(b"STDERR");
        Result<Stream, StreamFromStrError>: Stream::from_ascii_bytes(b"");
    }
}
macro_rules! ansi_consts {
    ($($n:ident $i:literal $f:literal $b:literal)*) => { $( both! {
        &'static str: AnsiColor::$n.foreground_args();
        &'static str: AnsiColor::$n.background_args();
        &'static str: AnsiColor::$n.underline_args();
        &'static str: AnsiColor::$n.foreground_escape();
        &'static str: AnsiColor::$n.background_escape();
        &'static str: AnsiColor::$n.underline_escape();
        XtermColor: AnsiColor::$n.to_xterm();
        &'static str: ansi::$n::FOREGROUND_ARGS;
        &'static str: ansi::$n::BACKGROUND_ESCAPE;
        AnsiColor: ansi::$n::DYNAMIC;
        XtermColor: ansi::$n::DYNAMIC_XTERM;
    } )* };
}
pub fn check_ansi() {
    ansi_all! { ansi_consts }
}
macro_rules! xterm_consts {
    ($($c:literal $n:ident)*) => { $( both! {
        XtermColor: XtermColor::from_code($c);
        XtermColor: xterm::$n::DYNAMIC;
    } )* };
}
pub fn check_xterm() {
    xterm_all! { xterm_consts }
    both! {
        &'static str: XtermColor::from_code(0).args();
        &'static str: XtermColor::from_code(99).args();
        &'static str: XtermColor::from_code(255).args();
        &'static str: XtermColor::from_code(199).foreground_args();
        &'static str: XtermColor::from_code(199).background_args();
        &'static str: XtermColor::from_code(199).underline_args();
        &'static str: XtermColor::from_code(199).foreground_escape();
        &'static str: XtermColor::from_code(199).background_escape();
        &'static str: XtermColor::from_code(199).underline_escape();
        &'static str: xterm::Navy::ARGS;
    }
}
macro_rules! css_consts {
    ($($n:ident $r:literal $g:literal $b:literal)*) => { $( both! {
        RgbColor: CssColor::$n.rgb();
        CssColor: css::$n::DYNAMIC;
    } )* };
}
pub fn check_css() {
    css_all! { css_consts }
    both! {
        &'static str: CssColor::Tan.args();
        &'static str: CssColor::Tan.foreground_args();
        &'static str: CssColor::Tan.background_args();
        &'static str: CssColor::Tan.underline_args();
        &'static str: CssColor::Tan.foreground_escape();
        &'static str: CssColor::Tan.background_escape();
        &'static str: CssColor::Tan.underline_escape();
        &'static str: css::Tan::FOREGROUND_ARGS;
    }
}
pub fn check_rgb() {
    both! {
        &'static str: Rgb::<0, 10, 255>::ARGS;
        &'static str: Rgb::<0, 10, 255>::FOREGROUND_ARGS;
        &'static str: Rgb::<0, 10, 255>::BACKGROUND_ARGS;
        &'static str: Rgb::<0, 10, 255>::UNDERLINE_ARGS;
        &'static str: Rgb::<0, 10, 255>::FOREGROUND_ESCAPE;
        &'static str: Rgb::<0, 10, 255>::BACKGROUND_ESCAPE;
        &'static str: Rgb::<0, 10, 255>::UNDERLINE_ESCAPE;
        RgbColor: Rgb::<0, 10, 255>::DYNAMIC;
    }
}
