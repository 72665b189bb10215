//! C19: effect collections behave as sets.
use crate::util::*;
use crate::vh::*;
use colorz::{Effect, EffectFlags, EffectFlagsIter};

const ADD: &str = "adding an effect changes only that effect";
const REMOVE: &str = "removing an effect changes only that effect";
const TOGGLE: &str = "toggling an effect changes only that effect";
const EMPTY: &str = "a new set is empty";
const ALL: &str = "the full set contains every effect";
const PLAIN: &str = "a set is plain exactly when it has no member";
const BUILT: &str = "a set built from effects contains exactly those effects";
const MEET: &str = "two sets intersect exactly when they share a member";
const EQUAL: &str = "sets are equal exactly when they have the same members";
const ORDER: &str = "iteration yields each member once, in declaration order, and nothing else";

/// declaration order, as documented
const DECLARED: [Effect; 13] = [
    Effect::Bold,
    Effect::Dimmed,
    Effect::Italic,
    Effect::Underline,
    Effect::DoubleUnderline,
    Effect::Blink,
    Effect::BlinkFast,
    Effect::Reversed,
    Effect::Hidden,
    Effect::Strikethrough,
    Effect::Overline,
    Effect::SuperScript,
    Effect::SubScript,
];
pub fn check_declaration() {
    let e: Effect = any("effect");
    let mut known = false;
    for_effects! { x => { known = known | (e == x); } };
    check(known, "the oracle covers every effect");
}
fn changed(after: EffectFlags, before: EffectFlags, e: Effect, now: bool, what: &str) {
    for_effects! { x => { check(after.is(x) == if x == e { now } else { before.is(x) }, what); } };
}
pub fn check_changes() {
    let s = any_effects();
    for_effects! { e => {
        changed(s.with(e), s, e, true, ADD);
        changed(s.without(e), s, e, false, REMOVE);
        changed(s.toggled(e), s, e, !s.is(e), TOGGLE);
        let mut t = s;
        t.set(e);
        changed(t, s, e, true, ADD);
        let mut t = s;
        t.unset(e);
        changed(t, s, e, false, REMOVE);
        let mut t = s;
        t.toggle(e);
        changed(t, s, e, !s.is(e), TOGGLE);
    } };
}
/// as above for an effect chosen at run time
pub fn check_changes_any() {
    let s = effects_among("effects", &SOME_EFFECTS);
    let e: Effect = any("effect");
    changed(s.with(e), s, e, true, ADD);
    changed(s.without(e), s, e, false, REMOVE);
    changed(s.toggled(e), s, e, !s.is(e), TOGGLE);
}
pub fn check_constants() {
    for_effects! { e => {
        check(!EffectFlags::new().is(e), EMPTY);
        check(!EffectFlags::default().is(e), EMPTY);
        check(EffectFlags::all().is(e), ALL);
    } };
    check(EffectFlags::new() == EffectFlags::default(), EMPTY);
    check(EffectFlags::new().is_plain(), PLAIN);
    check(EffectFlags::default().is_plain(), PLAIN);
    check(!EffectFlags::all().is_plain(), PLAIN);
    let mut s = EffectFlags::new();
    for_effects! { e => { s = s.with(e); } };
    check(s == EffectFlags::all(), ALL);
}
pub fn check_plain() {
    let s = any_effects();
    let mut none = true;
    for_effects! { e => { none = none & !s.is(e); } };
    check(s.is_plain() == none, PLAIN);
}
fn member(of: &[Effect], x: Effect) -> bool {
    let mut i = 0;
    let mut r = false;
    while i < of.len() {
        r = r | (of[i] == x);
        i += 1;
    }
    r
}
fn holds(s: EffectFlags, of: &[Effect]) {
    for_effects! { x => { check(s.is(x) == member(of, x), BUILT); } };
}
fn four() -> [Effect; 4] {
    [any("effect 0"), any("effect 1"), any("effect 2"), any("effect 3")]
}
pub fn check_from_array() {
    let [a, b, c, d] = four();
    holds(EffectFlags::from_array([]), &[]);
    holds(EffectFlags::from_array([a]), &[a]);
    holds(EffectFlags::from_array([a, b]), &[a, b]);
    holds(EffectFlags::from_array([a, b, c]), &[a, b, c]);
    holds(EffectFlags::from_array([a, a, b]), &[a, b]);
    let s = EffectFlags::from_array([a, b, c, d]);
    check(s.is(a) && s.is(b) && s.is(c) && s.is(d), BUILT);
    let s = EffectFlags::from_array(DECLARED);
    check(s == EffectFlags::all(), BUILT);
}
pub fn check_from_iterator() {
    let [mut a, b, c, d] = four();
    let none: [Effect; 0] = [];
    holds(none.into_iter().collect(), &[]);
    holds([a].into_iter().collect(), &[a]);
    holds([a, b].into_iter().collect(), &[a, b]);
    holds([a, b].iter().collect(), &[a, b]);
    holds([a, b, c].into_iter().collect(), &[a, b, c]);
    holds([a, b, c].iter().collect(), &[a, b, c]);
    holds(EffectFlags::from_iter([a, b, a]), &[a, b]);
    holds(Some(a).into_iter().collect(), &[a]);
    let s: EffectFlags = [a, b, c, d].iter().collect();
    check(s.is(a) && s.is(b) && s.is(c) && s.is(d), BUILT);
    let mut m = [a, b];
    holds(m.iter_mut().collect(), &[a, b]);
    check(Effect::from(&a) == a, BUILT);
    let keep = a;
    check(Effect::from(&mut a) == keep, BUILT);
}
/// more effects than there are effects, and more than an octet counts
fn long<const N: usize>() {
    let (a, b, c): (Effect, Effect, Effect) = (any("every effect but two"), any("an effect in the middle"), any("the last effect"));
    let mut l = [a; N];
    l[N / 2] = b;
    l[N - 1] = c;
    holds(EffectFlags::from_array(l), &[a, b, c]);
    holds(l.iter().collect(), &[a, b, c]);
    holds(l.into_iter().collect(), &[a, b, c]);
}
pub fn check_long_lists_s8() {
    match shard() {
        0 => long::<14>(),
        1 => long::<16>(),
        2 => long::<17>(),
        3 => long::<33>(),
        4 => long::<65>(),
        5 => long::<255>(),
        6 => long::<256>(),
        _ => long::<300>(),
    }
}
pub fn check_collects_itself_s8() {
    let s = any_effects();
    shard_effects(s);
    check(s.into_iter().collect::<EffectFlags>() == s, BUILT);
}
pub fn check_intersection_with_one() {
    let s = any_effects();
    for_effects! { e => {
        check(s.is_any(EffectFlags::new().with(e)) == s.is(e), MEET);
        check(EffectFlags::from_array([e]).is_any(s) == s.is(e), MEET);
    } };
    check(!s.is_any(EffectFlags::new()), MEET);
    check(s.is_any(EffectFlags::all()) == !s.is_plain(), MEET);
    check(s.is_any(s) == !s.is_plain(), MEET);
}
fn two(of: &[Effect]) {
    let a = effects_among("set a", of);
    let b = effects_among("set b", of);
    let (mut meet, mut equal) = (false, true);
    for_effects! { e => {
        meet = meet | (a.is(e) & b.is(e));
        equal = equal & (a.is(e) == b.is(e));
    } };
    check(a.is_any(b) == meet, MEET);
    check((a == b) == equal, EQUAL);
    check((a != b) == !equal, EQUAL);
}
pub fn check_two_sets_s4() {
    match shard() {
        0 => two(&[Effect::Bold, Effect::Dimmed, Effect::Italic, Effect::Underline]),
        1 => two(&[Effect::DoubleUnderline, Effect::Blink, Effect::BlinkFast, Effect::Reversed]),
        2 => two(&[Effect::Hidden, Effect::Strikethrough, Effect::Overline, Effect::SuperScript, Effect::SubScript]),
        _ => two(&[Effect::Bold, Effect::Blink, Effect::Overline, Effect::SubScript]),
    }
}
pub fn check_equality() {
    let s = any_effects();
    let mut t = EffectFlags::new();
    for_effects! { e => { if branch(s.is(e)) { t = t.with(e); } } };
    check(s == t, EQUAL);
}
pub fn check_inequality() {
    let s = any_effects();
    for_effects! { e => { check(s != s.toggled(e), EQUAL); } };
}
fn next(i: &mut EffectFlagsIter, want: Option<Effect>) {
    let got = i.next();
    match (got, want) {
        (Some(a), Some(b)) => check(a == b, ORDER),
        (None, None) => check(true, ORDER),
        _ => check(false, ORDER),
    }
}
fn in_order(mut i: EffectFlagsIter, s: EffectFlags) {
    for_effects! { e => { if branch(s.is(e)) { next(&mut i, Some(e)); } } };
    next(&mut i, None);
    next(&mut i, None);
}
pub fn check_iteration_s8() {
    let s = any_effects();
    shard_effects(s);
    in_order(s.iter(), s);
}
pub fn check_into_iteration() {
    let s = effects_among("effects", &SOME_EFFECTS);
    in_order(s.into_iter(), s);
    in_order(s.iter().clone(), s);
    let mut n = 0;
    for e in s {
        check(s.is(e), ORDER);
        n += 1;
    }
    let mut m = 0;
    for_effects! { e => { if branch(s.is(e)) { m += 1; } } };
    check(n == m, ORDER);
    check(s.iter().count() == m, ORDER);
}
/// a partly consumed iterator goes on with the remaining members
pub fn check_partial_iteration() {
    let s = effects_among("effects", &SOME_EFFECTS);
    let mut i = s.iter();
    if let Some(first) = i.next() {
        in_order(i.clone(), s.without(first));
        let (lo, hi) = i.size_hint();
        let left = i.count();
        check(lo <= left, ORDER);
        if let Some(hi) = hi {
            check(left <= hi, ORDER);
        }
    }
}

/// `Wrapped(x).back()` is `next_back` where the iterator has it, nothing otherwise
struct Wrapped<I>(I);
impl<I: DoubleEndedIterator<Item = Effect>> Wrapped<I> {
    fn back(&mut self) -> Option<Option<Effect>> {
        Some(self.0.next_back())
    }
}
impl<I: ExactSizeIterator<Item = Effect>> Wrapped<I> {
    fn exact(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
trait Otherwise {
    fn back(&mut self) -> Option<Option<Effect>> {
        None
    }
    fn exact(&self) -> Option<usize> {
        None
    }
}
impl<I> Otherwise for Wrapped<I> {}

/// the other ways to walk a collection agree with taking one member after the other
fn ways(i: EffectFlagsIter, left: EffectFlags) {
    let (mut first, mut last, mut n) = (None, None, 0);
    for_effects! { e => { if branch(left.is(e)) {
        if n == 0 {
            first = Some(e);
        }
        last = Some(e);
        n += 1;
    } } };
    check(i.clone().last() == last, WAYS);
    check(i.clone().count() == n, WAYS);
    check(i.clone().nth(0) == first, WAYS);
    check(i.clone().nth(n).is_none(), WAYS);
    if n > 0 {
        check(i.clone().nth(n - 1) == last, WAYS);
    }
    let (lo, hi) = i.size_hint();
    check(lo <= n, WAYS);
    check(hi.is_none() || hi >= Some(n), WAYS);
    check(i.clone().min_by_key(|e| *e as u8) == first, WAYS);
    check(i.clone().max_by_key(|e| *e as u8) == last, WAYS);
    let mut seen = EffectFlags::new();
    let mut m = 0;
    i.clone().for_each(|e| {
        seen = seen.with(e);
        m += 1;
    });
    check(seen == left, WAYS);
    check(m == n, WAYS);
    check(i.clone().fold(0, |k, e| if left.is(e) { k + 1 } else { 100 }) == n, WAYS);
    check(i.clone().all(|e| left.is(e)), WAYS);
    check(!i.clone().any(|e| !left.is(e)), WAYS);
    check(i.clone().find(|e| Some(*e) == last) == last, WAYS);
    check(i.clone().position(|e| Some(e) == last) == if n == 0 { None } else { Some(n - 1) }, WAYS);
    if let Some(k) = Wrapped(i.clone()).exact() {
        check(k == n, WAYS);
    }
    let mut w = Wrapped(i.clone());
    if let Some(b) = w.back() {
        check(b == last, WAYS);
        if let Some(e) = b {
            in_order(w.0, left.without(e));
        }
    }
}
const WAYS: &str = "every way to walk a collection visits each member once, in declaration order";
pub fn check_ways_s8() {
    let s = if feature("thorough") { any_effects() } else { effects_among("effects", &WALKED) };
    shard_effects(s);
    ways(s.iter(), s);
    let mut i = s.iter();
    if let Some(e) = i.next() {
        ways(i, s.without(e));
    }
}
const WALKED: [Effect; 7] = [Effect::Bold, Effect::Dimmed, Effect::Underline, Effect::DoubleUnderline, Effect::Hidden, Effect::SuperScript, Effect::SubScript];
