//! C26: no public operation panics or overflows. Every rule here only performs operations, with all argument values and with other
//! threads changing the global settings at any moment; reaching a panic is the violation.
use crate::util::*;
use crate::vh::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::mode::*;
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{
    ansi, Color, ColorSpec, Colorize, ComptimeColor, Effect, EffectFlags, NoColor, OptionalColor, ParseColorError, Style, StyledValue, WriteColor,
};
use core::fmt::{self, *};

const DONE: &str = "the operations complete";

fn done() {
    check(true, DONE);
}
fn fmt_to(op: impl Fn(&mut fmt::Formatter<'_>) -> fmt::Result) {
    let o = new_sink(true);
    let _ = op(formatter(o));
}
fn debug<T: fmt::Debug>(x: T) {
    let o = new_sink(false);
    let _ = x.fmt(formatter(o));
}
/// what other threads may do at the same time
pub fn collect_settings() {
    concurrent(true);
    set_coloring_mode(any("mode"));
    set_default_stream(any("stream"));
    let _ = should_color(any("stream of a query"), &[any("kind")]);
}
pub fn check_settings() {
    concurrent(true);
    let _ = get_coloring_mode();
    let _ = get_default_stream();
    set_coloring_mode(any("mode"));
    set_default_stream(any("default stream"));
    let _ = get_coloring_mode();
    let _ = get_default_stream();
    done();
}
#[cfg(feature = "std")]
pub fn check_environment() {
    concurrent(true);
    let _ = Mode::from_env();
    set_coloring_mode_from_env();
    let _ = get_coloring_mode();
    done();
}
pub fn check_decisions_s4() {
    concurrent(true);
    let s: Option<Stream> = any("stream");
    match shard() {
        0 => {
            let _ = should_color(s, &[]);
        }
        1 => {
            let _ = should_color(s, &[any("kind 0")]);
        }
        2 => {
            let _ = should_color(s, &[any("kind 0"), any("kind 1")]);
        }
        _ => {
            let _ = should_color(s, &[any("kind 0"), any("kind 1"), any("kind 2")]);
        }
    }
    done();
}
pub fn check_parse_color() {
    let s: &str = any("text");
    let _ = s.parse::<Color>();
    done();
}
pub fn check_parse_mode() {
    let s: &str = any("text");
    let _ = s.parse::<Mode>();
    done();
}
pub fn check_parse_stream() {
    let s: &str = any("text");
    let _ = s.parse::<Stream>();
    done();
}
pub fn check_parse_mode_bytes() {
    let b: &[u8] = any("bytes");
    let _ = Mode::from_ascii_bytes(b);
    done();
}
pub fn check_parse_stream_bytes() {
    let b: &[u8] = any("bytes");
    let _ = Stream::from_ascii_bytes(b);
    done();
}
fn effects() -> EffectFlags {
    let e = effects_or(&[Effect::Bold, Effect::Underline, Effect::DoubleUnderline, Effect::SuperScript, Effect::SubScript]);
    shard_effects(e);
    e
}
pub fn check_apply_s8<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), effects());
    fmt_to(|f| fmt::Display::fmt(&s.apply(), f));
    done();
}
pub fn check_clear_s8<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), effects());
    fmt_to(|f| fmt::Display::fmt(&s.clear(), f));
    done();
}
/// every effect set
pub fn check_apply_effects_s8() {
    let e = any_effects();
    shard_effects(e);
    let s = Style::new().effect_flags(e);
    let o = new_sink(false);
    let _ = fmt::Display::fmt(&s.apply(), formatter(o));
    let _ = fmt::Display::fmt(&s.clear(), formatter(o));
    let _ = s.is_plain();
    done();
}
pub fn check_style_debug<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = any_style::<F, B, U>(&[Effect::Underline]);
    fmt_to(|f| fmt::Debug::fmt(&s.apply(), f));
    fmt_to(|f| fmt::Debug::fmt(&s.clear(), f));
    done();
}
pub fn check_clear_all() {
    fmt_to(|f| fmt::Display::fmt(&Style::clear_all(), f));
    fmt_to(|f| fmt::Debug::fmt(&Style::clear_all(), f));
    done();
}
macro_rules! style_effect {
    ($s:ident $($m:ident $e:ident)*) => { $( let _ = $s.$m(); )* };
}
pub fn check_style_methods<F: OptionalColor, B: OptionalColor, U: OptionalColor, C: OptionalColor>() {
    let s = any_style::<F, B, U>(&EFFECTS);
    let c: C = any("colour");
    let _ = (s.fg(c), s.bg(c), s.underline_color(c), s.clear_effects(), s.effect_flags(any_subset("other effects", EffectFlags::all())));
    effect_methods! { style_effect s }
    let _ = s.is_plain();
    let e: Effect = any("effect");
    let _ = (s.with(e), s.without(e), s.toggled(e), s.is(e));
    done();
}
pub fn check_style_effect_lists<F: OptionalColor>() {
    let s = any_style::<F, F, F>(&SOME_EFFECTS);
    let (a, b, c): (Effect, Effect, Effect) = (any("effect 0"), any("effect 1"), any("effect 2"));
    let _ = (s.effects_array([]), s.effects_array([a]), s.effects_array([a, b]), s.effects_array([a, b, c]));
    let _ = (s.effects([a, b, c]), s.effects(&[a, b]), s.effects(Some(a)));
    done();
}
pub fn check_style_decides<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    concurrent(true);
    let s = any_style::<F, B, U>(&[Effect::Underline]);
    let _ = s.should_color(any::<Option<Stream>>("stream"));
    done();
}
pub fn check_style_runtime<F, B, U>()
where
    F: OptionalColor + Into<Option<Color>>,
    B: OptionalColor + Into<Option<Color>>,
    U: OptionalColor + Into<Option<Color>>,
{
    let s = any_style::<F, B, U>(&SOME_EFFECTS);
    let _ = s.into_runtime_style();
    done();
}
pub fn check_style_const_runtime<F: OptionalColor + ComptimeColor, B: OptionalColor + ComptimeColor, U: OptionalColor + ComptimeColor>() {
    let s = any_style::<F, B, U>(&SOME_EFFECTS);
    let _ = s.const_into_runtime_style();
    done();
}
pub fn check_style_compare() {
    let s: Style = any_style::<Option<Color>, Option<Color>, Option<Color>>(&[Effect::Bold]);
    let t = s.bold();
    let _ = (s == t, s != t, s.effects == t.effects);
    let d = Style::default();
    let _ = (d == Style::new(), d.is_plain());
    done();
}
pub fn check_display<T: fmt::Display, F: OptionalColor, B: OptionalColor>() {
    concurrent(true);
    let v: StyledValue<T, F, B, NoColor> = StyledValue::new(any("value"), any_style::<F, B, NoColor>(&[Effect::Underline]), any("stream"));
    fmt_to(|f| fmt::Display::fmt(&v, f));
    done();
}
macro_rules! values {
    ($($f:ident $tr:ident)*) => { $( pub fn $f<T: fmt::$tr, U: OptionalColor>() {
        concurrent(true);
        let v: StyledValue<T, NoColor, NoColor, U> = StyledValue::new(any("value"), any_style::<NoColor, NoColor, U>(&[Effect::Underline]), any("stream"));
        fmt_to(|f| fmt::$tr::fmt(&v, f));
        done();
    } )* };
}
values! {
    check_debug Debug
    check_binary Binary
    check_octal Octal
    check_pointer Pointer
    check_lower_exp LowerExp
    check_upper_exp UpperExp
    check_lower_hex LowerHex
    check_upper_hex UpperHex
}
pub fn check_custom<T, B: OptionalColor>() {
    concurrent(true);
    let v: StyledValue<T, NoColor, B, NoColor> = StyledValue::new(any("value"), any_style::<NoColor, B, NoColor>(&[Effect::Underline, Effect::Bold]), any("stream"));
    let fails: bool = any("the custom formatter fails");
    let o = new_sink(true);
    let _ = v.fmt_with(formatter(o), |_, f| if fails { Err(fmt::Error) } else { f.write_str("x") });
    done();
}
macro_rules! plain_effects {
    ($t:ident $v:ident $($m:ident $i:ident $e:ident)*) => { $( let _ = (Colorize::$m(&$t), Colorize::$i($t), $v.$m()); )* };
}
macro_rules! plain_colors {
    ($t:ident $v:ident $($n:ident $m:ident $i:ident $o:ident $p:ident)*) => { $( let _ = (Colorize::$m(&$t), Colorize::$i($t), Colorize::$o(&$t), Colorize::$p($t), $v.$m(), $v.$o()); )* };
}
pub fn check_value_methods<T: Copy, F: OptionalColor, B: OptionalColor, U: OptionalColor, C: OptionalColor>() {
    let t: T = any("value");
    let v: StyledValue<T, F, B, U> = StyledValue::new(t, any_style::<F, B, U>(&EFFECTS), any("stream"));
    let c: C = any("colour");
    let s = v.style;
    into_effect_methods! { plain_effects t v }
    ansi_methods! { plain_colors t v }
    let _ = (Colorize::style(&t), Colorize::into_style(t), t.style_with(s), t.into_style_with(s));
    let _ = (Colorize::fg(&t, c), Colorize::into_fg(t, c), Colorize::bg(&t, c), Colorize::into_bg(t, c), Colorize::underline_color(&t, c));
    let _ = (v.fg(c), v.bg(c), v.underline_color(c), v.stream(any("new stream")), v.stream_opt(any("optional stream")), v.style(), v.into_style());
    done();
}
pub fn check_colors_concrete_WriteColor<C: WriteColor>() {
    colors::<C>();
}
pub fn check_specs_concrete_ColorSpec<C: ColorSpec>() {
    let c: C = any("colour");
    let _ = (c.foreground_args(), c.background_args(), c.underline_args(), c.foreground_escape(), c.background_escape(), c.underline_escape());
    let _ = (ColorSpec::into_dynamic(c), C::KIND);
    colors::<C>();
}
fn colors<C: WriteColor>() {
    let c: C = any("colour");
    fmt_to(|f| c.fmt_foreground_args(f));
    fmt_to(|f| c.fmt_background_args(f));
    fmt_to(|f| c.fmt_underline_args(f));
    fmt_to(|f| c.fmt_foreground(f));
    fmt_to(|f| c.fmt_background(f));
    fmt_to(|f| c.fmt_underline(f));
    let _ = (WriteColor::color_kind(c), OptionalColor::get(c), OptionalColor::color_kind(Some(c)));
    done();
}
pub fn check_optional_concrete_OptionalColor<C: OptionalColor>() {
    let c: C = any("optional colour");
    let _ = (c.get(), c.color_kind(), Some(c).get(), Some(Some(c)).color_kind());
    done();
}
pub fn check_runtime_ansi() {
    let a: AnsiColor = any("ansi colour");
    let _ = (a.foreground_args(), a.background_args(), a.underline_args(), a.foreground_escape(), a.background_escape(), a.underline_escape());
    let _ = (a.to_xterm(), XtermColor::from(a));
    done();
}
pub fn check_runtime_xterm() {
    let x: XtermColor = any("xterm colour");
    let _ = (x.foreground_args(), x.background_args(), x.underline_args(), x.foreground_escape(), x.background_escape(), x.underline_escape());
    let _ = x.args();
    done();
}
pub fn check_from_code() {
    let _ = XtermColor::from_code(any("code"));
    done();
}
pub fn check_runtime_css() {
    let c: CssColor = any("css colour");
    let _ = (c.foreground_args(), c.background_args(), c.underline_args(), c.foreground_escape(), c.background_escape(), c.underline_escape());
    let _ = (c.args(), c.rgb(), RgbColor::from(c));
    done();
}
pub fn check_rgb_types<const R: u8, const G: u8, const B: u8>() {
    let t = Rgb::<R, G, B>;
    let _ = (Rgb::<R, G, B>::ARGS, Rgb::<R, G, B>::FOREGROUND_ARGS, Rgb::<R, G, B>::BACKGROUND_ARGS, Rgb::<R, G, B>::UNDERLINE_ARGS);
    let _ = (Rgb::<R, G, B>::FOREGROUND_ESCAPE, Rgb::<R, G, B>::BACKGROUND_ESCAPE, Rgb::<R, G, B>::UNDERLINE_ESCAPE, Rgb::<R, G, B>::DYNAMIC);
    let _ = (RgbColor::from(t), Color::from(t), Option::<Color>::from(t));
    done();
}
pub fn check_erased() {
    let c: Color = any("colour");
    let _ = Option::<Color>::from(c);
    let r = RgbColor { red: any("red"), green: any("green"), blue: any("blue") };
    let _ = c == Color::Rgb(r);
    done();
}
pub fn check_effects() {
    let e: Effect = any("effect");
    let _ = (e.apply_args(), e.clear_args(), e.apply_escape(), e.clear_escape(), e == any::<Effect>("other effect"));
    let s = any_effects();
    let (mut a, mut b, mut c) = (s, s, s);
    a.set(e);
    b.unset(e);
    c.toggle(e);
    let _ = (s.with(e), s.without(e), s.toggled(e), s.is(e), s.is_plain(), s.is_any(a), s == b, EffectFlags::all(), EffectFlags::new(), EffectFlags::default());
    done();
}
pub fn check_effect_lists() {
    let (a, b, c): (Effect, Effect, Effect) = (any("effect 0"), any("effect 1"), any("effect 2"));
    let _ = (EffectFlags::from_array([]), EffectFlags::from_array([a]), EffectFlags::from_array([a, b, c]));
    let s: EffectFlags = [a, b, c].iter().collect();
    let t: EffectFlags = [a, b, c].into_iter().collect();
    let _ = (s, t);
    done();
}
/// lists longer than an octet counts
pub fn check_long_effect_lists_s4() {
    let e: Effect = any("effect");
    let s = Style::new();
    let _ = match shard() {
        0 => (EffectFlags::from_array([e; 300]), s.effects_array([e; 300])),
        1 => ([e; 300].iter().collect(), s.effects([e; 300])),
        2 => ([e; 300].into_iter().collect(), s.effects(&[e; 300])),
        _ => (EffectFlags::from_array([e; 70_000]), s.effects_array([e; 20])),
    };
    done();
}
pub fn check_long_kind_lists_s2() {
    let s: Option<Stream> = any("stream");
    let k: ColorKind = any("kind");
    match shard() {
        0 => {
            let _ = should_color(s, &[k; 300]);
        }
        _ => {
            let _ = should_color(s, &[k; 70_000]);
        }
    }
    done();
}
pub fn check_iteration_s8() {
    let s = any_effects();
    shard_effects(s);
    let mut i = s.iter();
    while let Some(_) = i.next() {
        let _ = i.size_hint();
    }
    let _ = (i.next(), i.next(), i.size_hint());
    for _ in s {}
    done();
}
pub fn check_iterator_adapters() {
    let s = effects_among("effects", &[Effect::Bold, Effect::Underline, Effect::SubScript]);
    let _ = (s.iter().count(), s.iter().last(), s.iter().nth(1), s.iter().collect::<EffectFlags>());
    done();
}
pub fn check_debug_sets_s8() {
    let s = any_effects();
    shard_effects(s);
    let o = new_sink(false);
    let _ = fmt::Debug::fmt(&s, plain_formatter(o));
    done();
}
pub fn check_debug_forms() {
    let i = effects_among("effects", &[Effect::Bold, Effect::Underline, Effect::SubScript]).iter();
    let o = new_sink(false);
    let _ = fmt::Debug::fmt(&i, formatter(o));
    debug(NoColor);
    debug(ansi::Red);
    debug(colorz::xterm::Aqua);
    debug(colorz::css::Red);
    debug(Style::new().fg(ansi::Red).bold());
    done();
}
macro_rules! debug_names {
    ($($f:ident $t:ty)*) => { $( pub fn $f() { debug(any::<$t>("value")); done(); } )* };
}
debug_names! {
    check_debug_effect Effect
    check_debug_mode Mode
    check_debug_stream Stream
    check_debug_kind ColorKind
    check_debug_ansi AnsiColor
    check_debug_xterm XtermColor
    check_debug_css CssColor
    check_debug_parse_error ParseColorError
    check_debug_rgb RgbColor
}
pub fn check_errors() {
    let (m, s) = (ModeFromStrError, StreamFromStrError);
    fmt_to(|f| fmt::Display::fmt(&m, f));
    fmt_to(|f| fmt::Display::fmt(&s, f));
    fmt_to(|f| fmt::Debug::fmt(&m, f));
    fmt_to(|f| fmt::Debug::fmt(&s, f));
    done();
}
