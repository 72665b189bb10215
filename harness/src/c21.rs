//! C21: style builder methods change exactly what they name.
use crate::util::*;
use crate::vh::*;
use colorz::{Effect, EffectFlags, NoColor, OptionalColor, Style};

const FG: &str = "fg replaces the foreground colour and nothing else";
const BG: &str = "bg replaces the background colour and nothing else";
const UL: &str = "underline_color replaces the underline colour and nothing else";
const ADD: &str = "an effect method adds exactly its effect";
const REMOVE: &str = "without removes exactly the effect";
const TOGGLE: &str = "toggled toggles exactly the effect";
const SET: &str = "an effect-set method replaces the whole effect set and nothing else";
const QUERY: &str = "a membership query answers for its effect";
const NEW: &str = "a new style has no colour and no effect";

/// the components of a style, each as given
fn parts<F: OptionalColor, B: OptionalColor, U: OptionalColor>(s: &Style<F, B, U>, f: F, b: B, u: U, what: &str) {
    check(same_value(&s.foreground, &f), what);
    check(same_value(&s.background, &b), what);
    check(same_value(&s.underline_color, &u), what);
}
fn effect_changed<F: OptionalColor, B: OptionalColor, U: OptionalColor>(after: Style<F, B, U>, before: Style<F, B, U>, e: Effect, now: bool, what: &str) {
    parts(&after, before.foreground, before.background, before.underline_color, what);
    for_effects! { x => { check(after.effects.is(x) == if x == e { now } else { before.effects.is(x) }, what); } };
}
fn effects_are<F: OptionalColor, B: OptionalColor, U: OptionalColor>(after: Style<F, B, U>, before: Style<F, B, U>, e: EffectFlags, what: &str) {
    parts(&after, before.foreground, before.background, before.underline_color, what);
    for_effects! { x => { check(after.effects.is(x) == e.is(x), what); } };
}
fn start<F: OptionalColor, B: OptionalColor, U: OptionalColor>() -> Style<F, B, U> {
    any_style(&EFFECTS)
}
pub fn check_colors<F: OptionalColor, B: OptionalColor, U: OptionalColor, C: OptionalColor>() {
    let s = start::<F, B, U>();
    let c: C = any("new colour");
    let t = s.fg(c);
    parts(&t, c, s.background, s.underline_color, FG);
    check(same_value(&t.effects, &s.effects), FG);
    let t = s.bg(c);
    parts(&t, s.foreground, c, s.underline_color, BG);
    check(same_value(&t.effects, &s.effects), BG);
    let t = s.underline_color(c);
    parts(&t, s.foreground, s.background, c, UL);
    check(same_value(&t.effects, &s.effects), UL);
}
macro_rules! methods {
    ($($m:ident $e:ident)*) => {
        pub fn check_effect_methods<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
            let s = start::<F, B, U>();
            $( effect_changed(s.$m(), s, Effect::$e, true, ADD); )*
        }
    };
}
effect_methods! { methods }
pub fn check_effect_operations<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = start::<F, B, U>();
    for_effects! { e => {
        effect_changed(s.with(e), s, e, true, ADD);
        effect_changed(s.without(e), s, e, false, REMOVE);
        effect_changed(s.toggled(e), s, e, !s.effects.is(e), TOGGLE);
        check(s.is(e) == s.effects.is(e), QUERY);
    } };
}
pub fn check_queries() {
    let e: Effect = any("effect");
    let s = start::<NoColor, NoColor, NoColor>();
    check(s.is(e) == s.effects.is(e), QUERY);
    let t = s.with(e);
    check(t.is(e), QUERY);
    check(!s.without(e).is(e), QUERY);
    check(s.toggled(e).is(e) == !s.is(e), QUERY);
}
pub fn check_effect_sets<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = start::<F, B, U>();
    let e = effects_among("new effects", &EFFECTS);
    effects_are(s.effect_flags(e), s, e, SET);
    effects_are(s.clear_effects(), s, EffectFlags::new(), SET);
    effects_are(s.effects_array([]), s, EffectFlags::new(), SET);
    let none: [Effect; 0] = [];
    effects_are(s.effects(none), s, EffectFlags::new(), SET);
    effects_are(s.effects(EFFECTS), s, EffectFlags::all(), SET);
    effects_are(s.effects_array(EFFECTS), s, EffectFlags::all(), SET);
}
pub fn check_effect_lists<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = any_style::<F, B, U>(&SOME_EFFECTS);
    let (a, b): (Effect, Effect) = (any("effect 0"), any("effect 1"));
    let one = EffectFlags::new().with(a);
    let two = one.with(b);
    effects_are(s.effects_array([a]), s, one, SET);
    effects_are(s.effects_array([a, b]), s, two, SET);
    effects_are(s.effects([a]), s, one, SET);
    effects_are(s.effects(Some(a)), s, one, SET);
    effects_are(s.effects([a, b]), s, two, SET);
    effects_are(s.effects(&[a, b]), s, two, SET);
}
pub fn check_effects_of_a_set<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = any_style::<F, B, U>(&SOME_EFFECTS);
    let e = effects_among("new effects", &SOME_EFFECTS);
    effects_are(s.effects(e), s, e, SET);
    effects_are(s.effects(e.iter()), s, e, SET);
}
pub fn check_new() {
    let s = Style::new();
    parts(&s, NoColor, NoColor, NoColor, NEW);
    effects_are(s, s, EffectFlags::new(), NEW);
    let s: Style<NoColor, NoColor, NoColor> = Default::default();
    effects_are(s, s, EffectFlags::new(), NEW);
    check(s.effects.is_plain() && s.is_plain(), NEW);
    let s: Style = Style::new().into_runtime_style();
    check(s.foreground.is_none() && s.background.is_none() && s.underline_color.is_none() && s.effects.is_plain(), NEW);
}
/// a chain of calls keeps what earlier calls set
pub fn check_chain<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let (f, b, u): (F, B, U) = (any("fg"), any("bg"), any("ul"));
    let s = Style::new().bold().underline_color(u).fg(f).italics().bg(b).without(Effect::Bold);
    parts(&s, f, b, u, "a chain of calls keeps what earlier calls set");
    for_effects! { x => { check(s.effects.is(x) == (x == Effect::Italic), "a chain of calls keeps what earlier calls set"); } };
}
