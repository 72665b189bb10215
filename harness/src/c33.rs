//! C33: the Debug form of effect sets lists exactly the members.
use crate::util::*;
use crate::vh::*;
use colorz::{Effect, EffectFlags};
use core::fmt::{self, Debug};

const SET: &str = "the Debug form is a set of exactly the members, each once";
const REST: &str = "the Debug form of an iterator is a set of exactly the remaining members";
const STAY: &str = "debug-printing an iterator does not advance it";

fn listed(x: usize, s: EffectFlags, plain: bool) {
    let f = if plain { plain_formatter(x) } else { formatter(x) };
    let mut d = f.debug_set();
    for_effects! { e => { if branch(s.is(e)) { d.entry(&e); } } };
    let _ = d.finish();
}
pub fn check_set_s8() {
    let s = any_effects();
    shard_effects(s);
    let o = new_sink(false);
    let _ = s.fmt(plain_formatter(o));
    let x = new_sink(false);
    listed(x, s, true);
    check(same(o, x), SET);
}
pub fn check_set_with_options() {
    let s = effects_among("effects", &SOME_EFFECTS);
    let o = new_sink(false);
    let _ = s.fmt(formatter(o));
    let x = new_sink(false);
    listed(x, s, false);
    check(same(o, x), SET);
}
pub fn check_iterator_s8() {
    let s = any_effects();
    shard_effects(s);
    let i = s.iter();
    let o = new_sink(false);
    let _ = i.fmt(plain_formatter(o));
    let x = new_sink(false);
    listed(x, s, true);
    check(same(o, x), REST);
    let (mut i, mut n) = (i, 0);
    for_effects! { e => { if branch(s.is(e)) { check(i.next() == Some(e), STAY); n += 1; } } };
    check(i.next().is_none(), STAY);
    let _ = n;
}
pub fn check_partial_iterator() {
    let s = effects_among("effects", &[Effect::Bold, Effect::Underline, Effect::Reversed, Effect::Overline, Effect::SubScript]);
    let mut i = s.iter();
    let mut left = s;
    let mut round = 0;
    while round < 3 {
        match i.next() {
            Some(e) => left = left.without(e),
            None => return,
        }
        let o = new_sink(false);
        let _ = i.fmt(formatter(o));
        let x = new_sink(false);
        listed(x, left, false);
        check(same(o, x), REST);
        round += 1;
    }
}
/// the names are the effects' own Debug forms, which are distinct
pub fn check_names() {
    for_effects! { e => { {
        let o = out(|f| e.fmt(f));
        for_effects! { g => { if e != g { check(!same(o, out(|f| g.fmt(f))), "effects have distinct Debug forms"); } } };
    } } };
}
