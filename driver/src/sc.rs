//! Scalar abstract domain.
//!
//! A scalar is a function of finitely many *atoms* (finite-domain unknowns: enum variant, byte,
//! effect bit, environment class, ...). A path condition is a box: one value set per atom.
use std::rc::Rc;

pub type Atom = u32;
pub type Set = [u64; 4];

pub fn full(n: usize) -> Set {
    let mut s = [0u64; 4];
    for i in 0..n {
        s[i / 64] |= 1 << (i % 64);
    }
    s
}
pub fn has(s: &Set, i: usize) -> bool {
    s[i / 64] >> (i % 64) & 1 == 1
}
pub fn add(s: &mut Set, i: usize) {
    s[i / 64] |= 1 << (i % 64);
}
pub fn and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn minus(a: &Set, b: &Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn empty(a: &Set) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn card(a: &Set) -> usize {
    a.iter().map(|x| x.count_ones() as usize).sum()
}
pub fn elems(a: &Set) -> impl Iterator<Item = usize> + '_ {
    (0..4).flat_map(move |w| {
        let mut x = a[w];
        std::iter::from_fn(move || {
            if x == 0 {
                None
            } else {
                let i = x.trailing_zeros() as usize;
                x &= x - 1;
                Some(w * 64 + i)
            }
        })
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bit {
    Z,
    O,
    /// true iff the atom's value is in the set
    P(Atom, Set),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Eq,
    Lt,
    Le,
    AddO,
    SubO,
    MulO,
    // unary (b ignored)
    Not,
    Neg,
    Ctpop,
    Cttz,
    Ctlz,
    Bswap,
    Bitrev,
    /// cast from `w` bits (signed source if `signed`) to the width stored in b (constant)
    Cast,
}

#[derive(PartialEq, Eq, Hash, Debug)]
pub struct Ex {
    pub op: Op,
    pub w: u32,
    pub signed: bool,
    pub a: Sc,
    pub b: Sc,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Sc {
    C(u128),
    Tab(Atom, Rc<[u128]>),
    Bits(Rc<[Bit]>),
    Ex(Rc<Ex>),
    /// an unknown integer within [lo, hi]
    Unk(u32, u128, u128),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(x: u128, w: u32) -> i128 {
    if w >= 128 {
        return x as i128;
    }
    let sh = 128 - w;
    ((x << sh) as i128) >> sh
}

/// path condition: domain of every atom
pub trait Doms {
    fn dom(&self, a: Atom) -> Set;
    fn size(&self, a: Atom) -> usize;
}

pub fn conc(op: Op, w: u32, signed: bool, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let (sa, sb) = (sext(a, w), sext(b, w));
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::Div => {
            if b == 0 {
                0
            } else if signed {
                (sa.wrapping_div(sb) as u128) & m
            } else {
                a / b
            }
        }
        Op::Rem => {
            if b == 0 {
                0
            } else if signed {
                (sa.wrapping_rem(sb) as u128) & m
            } else {
                a % b
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => a.checked_shl((b % w as u128) as u32).unwrap_or(0) & m,
        Op::Shr => {
            let s = (b % w as u128) as u32;
            if signed {
                ((sa >> s) as u128) & m
            } else {
                a >> s
            }
        }
        Op::Eq => (a == b) as u128,
        Op::Lt => (if signed { sa < sb } else { a < b }) as u128,
        Op::Le => (if signed { sa <= sb } else { a <= b }) as u128,
        Op::AddO => {
            if signed {
                let r = sa + sb;
                (r != sext((r as u128) & m, w)) as u128
            } else {
                (a.checked_add(b).map_or(true, |r| r > m)) as u128
            }
        }
        Op::SubO => {
            if signed {
                let r = sa - sb;
                (r != sext((r as u128) & m, w)) as u128
            } else {
                (a < b) as u128
            }
        }
        Op::MulO => {
            if signed {
                match sa.checked_mul(sb) {
                    Some(r) => (r != sext((r as u128) & m, w)) as u128,
                    None => 1,
                }
            } else {
                a.checked_mul(b).map_or(true, |r| r > m) as u128
            }
        }
        Op::Not => !a & m,
        Op::Neg => a.wrapping_neg() & m,
        Op::Ctpop => a.count_ones() as u128,
        Op::Cttz => {
            if a == 0 {
                w as u128
            } else {
                a.trailing_zeros() as u128
            }
        }
        Op::Ctlz => {
            if a == 0 {
                w as u128
            } else {
                (a.leading_zeros() - (128 - w)) as u128
            }
        }
        Op::Bswap => a.swap_bytes() >> (128 - w),
        Op::Bitrev => a.reverse_bits() >> (128 - w),
        Op::Cast => {
            let tw = b as u32;
            if signed {
                (sa as u128) & mask(tw)
            } else {
                a & mask(tw)
            }
        }
    }
}

pub fn unary(op: Op) -> bool {
    matches!(
        op,
        Op::Not | Op::Neg | Op::Ctpop | Op::Cttz | Op::Ctlz | Op::Bswap | Op::Bitrev | Op::Cast
    )
}

fn all_same(t: &[u128]) -> bool {
    t.windows(2).all(|x| x[0] == x[1])
}
pub fn tab(a: Atom, t: Vec<u128>) -> Sc {
    if all_same(&t) {
        Sc::C(t[0])
    } else {
        Sc::Tab(a, t.into())
    }
}

fn bit_of_tab(a: Atom, t: &[u128], i: u32) -> Bit {
    let mut s = [0u64; 4];
    let mut n = 0;
    for (k, v) in t.iter().enumerate() {
        if v >> i & 1 == 1 {
            add(&mut s, k);
            n += 1;
        }
    }
    if n == 0 {
        Bit::Z
    } else if n == t.len() {
        Bit::O
    } else {
        Bit::P(a, s)
    }
}

pub fn to_bits(s: &Sc, w: u32) -> Option<Vec<Bit>> {
    match s {
        Sc::C(v) => Some((0..w).map(|i| if v >> i & 1 == 1 { Bit::O } else { Bit::Z }).collect()),
        Sc::Tab(a, t) => Some((0..w).map(|i| bit_of_tab(*a, t, i)).collect()),
        Sc::Bits(b) => {
            let mut v = b.to_vec();
            v.resize(w as usize, Bit::Z);
            Some(v)
        }
        _ => None,
    }
}

/// canonical scalar from bits
pub fn from_bits(v: Vec<Bit>, d: &dyn Doms) -> Sc {
    let mut atom = None;
    for b in &v {
        if let Bit::P(a, _) = b {
            match atom {
                None => atom = Some(*a),
                Some(x) if x == *a => (),
                _ => return Sc::Bits(v.into()),
            }
        }
    }
    match atom {
        None => Sc::C(v.iter().enumerate().map(|(i, b)| if *b == Bit::O { 1u128 << i } else { 0 }).sum()),
        Some(a) => {
            let n = d.size(a);
            let t: Vec<u128> = (0..n)
                .map(|k| {
                    v.iter()
                        .enumerate()
                        .map(|(i, b)| {
                            let on = match b {
                                Bit::Z => false,
                                Bit::O => true,
                                Bit::P(_, s) => has(s, k),
                            };
                            (on as u128) << i
                        })
                        .sum()
                })
                .collect();
            tab(a, t)
        }
    }
}

fn norm_bit(a: Atom, s: Set, d: &dyn Doms) -> Bit {
    let n = d.size(a);
    let c = card(&s);
    if c == 0 {
        Bit::Z
    } else if c == n {
        Bit::O
    } else {
        Bit::P(a, s)
    }
}
fn bit_not(b: Bit, d: &dyn Doms) -> Bit {
    match b {
        Bit::Z => Bit::O,
        Bit::O => Bit::Z,
        Bit::P(a, s) => Bit::P(a, minus(&full(d.size(a)), &s)),
    }
}
fn bit_op(op: Op, x: Bit, y: Bit, d: &dyn Doms) -> Option<Bit> {
    Some(match (op, x, y) {
        (Op::And, Bit::Z, _) | (Op::And, _, Bit::Z) => Bit::Z,
        (Op::And, Bit::O, o) | (Op::And, o, Bit::O) => o,
        (Op::Or, Bit::O, _) | (Op::Or, _, Bit::O) => Bit::O,
        (Op::Or, Bit::Z, o) | (Op::Or, o, Bit::Z) => o,
        (Op::Xor, Bit::Z, o) | (Op::Xor, o, Bit::Z) => o,
        (Op::Xor, Bit::O, o) | (Op::Xor, o, Bit::O) => bit_not(o, d),
        (_, Bit::P(a, s), Bit::P(b, t)) if a == b => {
            let r = match op {
                Op::And => and(&s, &t),
                Op::Or => [s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]],
                _ => [s[0] ^ t[0], s[1] ^ t[1], s[2] ^ t[2], s[3] ^ t[3]],
            };
            norm_bit(a, r, d)
        }
        _ => return None,
    })
}

fn ex(op: Op, w: u32, signed: bool, a: Sc, b: Sc) -> Sc {
    Sc::Ex(Rc::new(Ex { op, w, signed, a, b }))
}

/// result width of an operation
pub fn rwidth(op: Op, w: u32, b: &Sc) -> u32 {
    match op {
        Op::Eq | Op::Lt | Op::Le | Op::AddO | Op::SubO | Op::MulO => 1,
        Op::Cast => match b {
            Sc::C(x) => *x as u32,
            _ => w,
        },
        _ => w,
    }
}

pub fn mk(op: Op, w: u32, signed: bool, a: Sc, b: Sc, d: &dyn Doms) -> Sc {
    use Sc::*;
    // constants and single-atom tables are exact
    match (&a, &b) {
        (C(x), C(y)) => return C(conc(op, w, signed, *x, *y)),
        (Tab(p, t), C(y)) => return tab(*p, t.iter().map(|x| conc(op, w, signed, *x, *y)).collect()),
        (C(x), Tab(p, t)) => return tab(*p, t.iter().map(|y| conc(op, w, signed, *x, *y)).collect()),
        (Tab(p, t), Tab(q, u)) if p == q => {
            return tab(*p, t.iter().zip(u.iter()).map(|(x, y)| conc(op, w, signed, *x, *y)).collect())
        }
        _ => (),
    }
    let m = mask(w);
    // identities
    match (op, &a, &b) {
        (Op::And, C(0), _) | (Op::And, _, C(0)) | (Op::Mul, C(0), _) | (Op::Mul, _, C(0)) => return C(0),
        (Op::Or, C(0), x) | (Op::Xor, C(0), x) | (Op::Add, C(0), x) | (Op::Mul, C(1), x) => return x.clone(),
        (Op::Or, x, C(0))
        | (Op::Xor, x, C(0))
        | (Op::Add, x, C(0))
        | (Op::Sub, x, C(0))
        | (Op::Mul, x, C(1))
        | (Op::Div, x, C(1))
        | (Op::Shl, x, C(0))
        | (Op::Shr, x, C(0)) => return x.clone(),
        (Op::And, C(k), x) | (Op::And, x, C(k)) if *k == m => return x.clone(),
        (Op::Or, C(k), _) | (Op::Or, _, C(k)) if *k == m => return C(m),
        (Op::Eq, x, y) | (Op::Le, x, y) if x == y => return C(1),
        (Op::Lt, x, y) if x == y => return C(0),
        (Op::Sub, x, y) | (Op::Xor, x, y) if x == y => return C(0),
        (Op::And, x, y) | (Op::Or, x, y) if x == y => return x.clone(),
        (Op::Eq, x, C(k)) | (Op::Eq, C(k), x) if w == 1 => {
            return if *k == 1 { x.clone() } else { mk(Op::Xor, 1, false, x.clone(), C(1), d) }
        }
        (Op::Eq, x, y) if w == 1 => {
            let n = mk(Op::Xor, 1, false, x.clone(), y.clone(), d);
            return mk(Op::Xor, 1, false, n, C(1), d);
        }
        (Op::Not, x, _) if w == 1 => return mk(Op::Xor, 1, false, x.clone(), C(1), d),
        (Op::Cast, x, C(tw)) if *tw as u32 == w => return x.clone(),
        (Op::AddO, C(0), _) | (Op::AddO, _, C(0)) | (Op::SubO, _, C(0)) => return C(0),
        _ => (),
    }
    // bit-parallel
    match op {
        Op::And | Op::Or | Op::Xor => {
            if let (Some(x), Some(y)) = (to_bits(&a, w), to_bits(&b, w)) {
                let r: Option<Vec<Bit>> = x.iter().zip(&y).map(|(x, y)| bit_op(op, *x, *y, d)).collect();
                if let Some(r) = r {
                    return from_bits(r, d);
                }
            }
        }
        Op::Not => {
            if let Some(x) = to_bits(&a, w) {
                return from_bits(x.into_iter().map(|b| bit_not(b, d)).collect(), d);
            }
        }
        Op::Shl | Op::Shr => {
            if let (Some(x), C(k)) = (to_bits(&a, w), &b) {
                let k = (*k % w as u128) as usize;
                let n = w as usize;
                let top = if signed && op == Op::Shr { x[n - 1] } else { Bit::Z };
                let r = (0..n)
                    .map(|i| {
                        if op == Op::Shl {
                            if i >= k {
                                x[i - k]
                            } else {
                                Bit::Z
                            }
                        } else if i + k < n {
                            x[i + k]
                        } else {
                            top
                        }
                    })
                    .collect();
                return from_bits(r, d);
            }
        }
        Op::Cast => {
            if let (Some(mut x), C(tw)) = (to_bits(&a, w), &b) {
                let top = if signed { x[w as usize - 1] } else { Bit::Z };
                x.resize(*tw as usize, top);
                return from_bits(x, d);
            }
        }
        Op::Bswap | Op::Bitrev => {
            if let Some(mut x) = to_bits(&a, w) {
                if op == Op::Bitrev {
                    x.reverse();
                } else {
                    let ch: Vec<Vec<Bit>> = x.chunks(8).map(|c| c.to_vec()).collect();
                    x = ch.into_iter().rev().flatten().collect();
                }
                return from_bits(x, d);
            }
        }
        Op::Add => {
            // disjoint addition is or
            if let (Some(x), Some(y)) = (to_bits(&a, w), to_bits(&b, w)) {
                if x.iter().zip(&y).all(|(x, y)| *x == Bit::Z || *y == Bit::Z) {
                    return mk(Op::Or, w, signed, a, b, d);
                }
            }
        }
        Op::Mul => {
            if let C(k) = &b {
                if k.is_power_of_two() {
                    return mk(Op::Shl, w, false, a, C(k.trailing_zeros() as u128), d);
                }
            }
            if let C(k) = &a {
                if k.is_power_of_two() {
                    return mk(Op::Shl, w, false, b, C(k.trailing_zeros() as u128), d);
                }
            }
        }
        Op::Sub => {
            // x - 1 with a known lowest set bit
            if let (Some(x), C(1)) = (to_bits(&a, w), &b) {
                if let Some(k) = lowest_known(&x) {
                    let mut r = x.clone();
                    for b in r.iter_mut().take(k) {
                        *b = Bit::O;
                    }
                    r[k] = Bit::Z;
                    return from_bits(r, d);
                }
            }
        }
        Op::Neg => {
            if let Some(x) = to_bits(&a, w) {
                if let Some(k) = lowest_known(&x) {
                    let mut r = x.clone();
                    for b in r.iter_mut().skip(k + 1) {
                        *b = bit_not(*b, d);
                    }
                    return from_bits(r, d);
                }
            }
        }
        Op::Cttz => {
            if let Some(x) = to_bits(&a, w) {
                if let Some(k) = lowest_known(&x) {
                    return C(k as u128);
                }
            }
        }
        Op::Ctlz => {
            if let Some(mut x) = to_bits(&a, w) {
                x.reverse();
                if let Some(k) = lowest_known(&x) {
                    return C(k as u128);
                }
            }
        }
        Op::Eq => {
            if let (Some(x), Some(y)) = (to_bits(&a, w), to_bits(&b, w)) {
                if x.iter().zip(&y).any(|p| matches!(p, (Bit::Z, Bit::O) | (Bit::O, Bit::Z))) {
                    return C(0);
                }
            }
            match (&a, &b) {
                (Bits(x), C(c)) | (C(c), Bits(x)) => {
                    if let Some(r) = eq_bits(x, *c, w, d) {
                        return r;
                    }
                }
                _ => (),
            }
        }
        _ => (),
    }
    let e = ex(op, w, signed, a, b);
    let r = range(&e, d);
    if r.0 == r.1 {
        return C(r.0);
    }
    e
}

/// `bits == c`, atom by atom: an atom none of whose values match makes it false, an atom all of whose
/// values match is dropped, a single remaining atom gives an exact predicate.
fn eq_bits(x: &[Bit], c: u128, w: u32, d: &dyn Doms) -> Option<Sc> {
    let mut atoms: Vec<Atom> = vec![];
    for b in x {
        if let Bit::P(a, _) = b {
            if !atoms.contains(a) {
                atoms.push(*a)
            }
        }
    }
    for (i, b) in x.iter().enumerate() {
        match (b, c >> i & 1) {
            (Bit::Z, 1) | (Bit::O, 0) => return Some(Sc::C(0)),
            _ => (),
        }
    }
    let mut left: Vec<(Atom, Set)> = vec![];
    for a in atoms {
        let dm = d.dom(a);
        let mut ok = dm;
        for (i, b) in x.iter().enumerate() {
            if let Bit::P(p, s) = b {
                if *p == a {
                    ok = if c >> i & 1 == 1 { and(&ok, s) } else { minus(&ok, s) };
                }
            }
        }
        if empty(&ok) {
            return Some(Sc::C(0));
        }
        if ok != dm {
            left.push((a, ok));
        }
    }
    match left.len() {
        0 => Some(Sc::C(1)),
        1 => {
            let (a, ok) = left[0];
            Some(tab(a, (0..d.size(a)).map(|i| has(&ok, i) as u128).collect()))
        }
        _ => {
            let keep: Vec<Bit> = x
                .iter()
                .enumerate()
                .map(|(i, b)| match b {
                    Bit::P(a, _) if left.iter().any(|l| l.0 == *a) => *b,
                    _ => {
                        if c >> i & 1 == 1 {
                            Bit::O
                        } else {
                            Bit::Z
                        }
                    }
                })
                .collect();
            Some(ex(Op::Eq, w, false, Sc::Bits(keep.into()), Sc::C(c)))
        }
    }
}

/// index of the lowest set bit if it is determined (all lower bits are known zero)
fn lowest_known(x: &[Bit]) -> Option<usize> {
    for (i, b) in x.iter().enumerate() {
        match b {
            Bit::Z => (),
            Bit::O => return Some(i),
            Bit::P(..) => return None,
        }
    }
    None
}

/// unsigned interval of the value under the box
pub fn range(s: &Sc, d: &dyn Doms) -> (u128, u128) {
    match s {
        Sc::C(x) => (*x, *x),
        Sc::Tab(a, t) => {
            let dm = d.dom(*a);
            let mut lo = u128::MAX;
            let mut hi = 0;
            for i in elems(&dm) {
                lo = lo.min(t[i]);
                hi = hi.max(t[i]);
            }
            if lo > hi {
                (0, 0)
            } else {
                (lo, hi)
            }
        }
        Sc::Bits(b) => {
            let mut lo = 0;
            let mut hi = 0;
            for (i, b) in b.iter().enumerate() {
                match b {
                    Bit::Z => (),
                    Bit::O => {
                        lo |= 1u128 << i;
                        hi |= 1u128 << i
                    }
                    Bit::P(..) => hi |= 1u128 << i,
                }
            }
            (lo, hi)
        }
        Sc::Unk(_, lo, hi) => (*lo, *hi),
        Sc::Ex(e) => {
            let m = mask(e.w);
            let (al, ah) = range(&e.a, d);
            let (bl, bh) = if unary(e.op) { (0, 0) } else { range(&e.b, d) };
            match e.op {
                Op::Add if ah.checked_add(bh).map_or(false, |x| x <= m) => (al + bl, ah + bh),
                Op::Sub if al >= bh => (al - bh, ah - bl),
                Op::Mul if ah.checked_mul(bh).map_or(false, |x| x <= m) => (al * bl, ah * bh),
                Op::Div if !e.signed && bl > 0 => (al / bh, ah / bl),
                Op::Rem if !e.signed && bl > 0 => (0, ah.min(bh - 1)),
                Op::And => (0, ah.min(bh)),
                Op::Or | Op::Xor => {
                    let hi = ah | bh;
                    let up = if hi == 0 { 0 } else { mask(128 - hi.leading_zeros()) };
                    (if e.op == Op::Or { al.max(bl) } else { 0 }, up)
                }
                Op::Shr if !e.signed => (0, ah),
                Op::Eq => {
                    if ah < bl || bh < al {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                }
                Op::Lt if !e.signed => {
                    if ah < bl {
                        (1, 1)
                    } else if al >= bh {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                }
                Op::Le if !e.signed => {
                    if ah <= bl {
                        (1, 1)
                    } else if al > bh {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                }
                Op::Lt | Op::Le => (0, 1),
                Op::AddO if !e.signed => {
                    if ah.checked_add(bh).map_or(false, |x| x <= m) {
                        (0, 0)
                    } else if al.checked_add(bl).map_or(true, |x| x > m) {
                        (1, 1)
                    } else {
                        (0, 1)
                    }
                }
                Op::SubO if !e.signed => {
                    if al >= bh {
                        (0, 0)
                    } else if ah < bl {
                        (1, 1)
                    } else {
                        (0, 1)
                    }
                }
                Op::MulO if !e.signed => {
                    if ah.checked_mul(bh).map_or(false, |x| x <= m) {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                }
                Op::AddO | Op::SubO | Op::MulO => (0, 1),
                Op::Ctpop => {
                    if let Some(b) = to_bits(&e.a, e.w) {
                        let lo = b.iter().filter(|b| **b == Bit::O).count();
                        let hi = b.iter().filter(|b| **b != Bit::Z).count();
                        (lo as u128, hi as u128)
                    } else {
                        (0, e.w as u128)
                    }
                }
                Op::Cttz | Op::Ctlz => {
                    if let Some(mut b) = to_bits(&e.a, e.w) {
                        if e.op == Op::Ctlz {
                            b.reverse();
                        }
                        let lo = b.iter().position(|b| *b != Bit::Z).unwrap_or(e.w as usize);
                        let hi = b.iter().position(|b| *b == Bit::O).unwrap_or(e.w as usize);
                        (lo as u128, hi as u128)
                    } else {
                        (0, e.w as u128)
                    }
                }
                Op::Cast if !e.signed => {
                    let tm = mask(rwidth(e.op, e.w, &e.b));
                    if ah <= tm {
                        (al, ah)
                    } else {
                        (0, tm)
                    }
                }
                Op::Cast => (0, mask(rwidth(e.op, e.w, &e.b))),
                _ => (0, m),
            }
        }
    }
}

/// the scalar restricted to the box
pub fn simp(s: &Sc, d: &dyn Doms) -> Sc {
    match s {
        Sc::C(_) | Sc::Unk(..) => s.clone(),
        Sc::Tab(a, t) => {
            let dm = d.dom(*a);
            let mut it = elems(&dm);
            let Some(f) = it.next() else { return Sc::C(t[0]) };
            let v = t[f];
            if it.all(|i| t[i] == v) {
                Sc::C(v)
            } else {
                s.clone()
            }
        }
        Sc::Bits(b) => {
            let mut ch = false;
            let v: Vec<Bit> = b
                .iter()
                .map(|b| match b {
                    Bit::P(a, s) => {
                        let dm = d.dom(*a);
                        let i = and(&dm, s);
                        if empty(&i) {
                            ch = true;
                            Bit::Z
                        } else if i == dm {
                            ch = true;
                            Bit::O
                        } else {
                            *b
                        }
                    }
                    x => *x,
                })
                .collect();
            if ch {
                match from_bits(v, d) {
                    t @ Sc::Tab(..) => simp(&t, d),
                    o => o,
                }
            } else {
                s.clone()
            }
        }
        Sc::Ex(e) => {
            let a = simp(&e.a, d);
            let b = simp(&e.b, d);
            let r = if a == e.a && b == e.b && e.op != Op::Eq {
                let r = range(s, d);
                if r.0 == r.1 {
                    return Sc::C(r.0);
                }
                return s.clone();
            } else {
                mk(e.op, e.w, e.signed, a, b, d)
            };
            match &r {
                Sc::Tab(..) | Sc::Bits(..) => simp(&r, d),
                _ => r,
            }
        }
    }
}

/// a refinement of the box that makes progress on deciding `s` (already simplified, not constant):
/// an atom and a partition of its domain. None if the scalar contains an unbounded unknown only.
pub fn suggest(s: &Sc, d: &dyn Doms) -> Option<(Atom, Vec<Set>)> {
    match s {
        Sc::C(_) | Sc::Unk(..) => None,
        Sc::Tab(a, t) => Some((*a, partition(*a, d, |i| t[i]))),
        Sc::Bits(b) => b.iter().find_map(|b| match b {
            Bit::P(a, s) => {
                let dm = d.dom(*a);
                Some((*a, vec![and(&dm, s), minus(&dm, s)]))
            }
            _ => None,
        }),
        Sc::Ex(e) => {
            if e.op == Op::Eq {
                // a wide value compared with a constant: decide atom by atom
                let pair = match (&e.a, &e.b) {
                    (Sc::Bits(b), Sc::C(c)) | (Sc::C(c), Sc::Bits(b)) => Some((b, *c)),
                    _ => None,
                };
                if let Some((b, c)) = pair {
                    let first = b.iter().find_map(|b| if let Bit::P(a, _) = b { Some(*a) } else { None })?;
                    let dm = d.dom(first);
                    let mut ok = dm;
                    for (i, b) in b.iter().enumerate() {
                        if let Bit::P(a, s) = b {
                            if *a == first {
                                ok = if c >> i & 1 == 1 { and(&ok, s) } else { minus(&ok, s) };
                            }
                        }
                    }
                    let no = minus(&dm, &ok);
                    if empty(&ok) || empty(&no) {
                        return Some((first, partition(first, d, |i| i as u128)));
                    }
                    return Some((first, vec![ok, no]));
                }
            }
            if matches!(e.op, Op::Shl | Op::Shr) && !matches!(e.b, Sc::C(_)) {
                return suggest_full(&e.b, d);
            }
            // non-boolean table leaves first, then anything
            if let Some(r) = find_tab(s, d) {
                return Some(r);
            }
            suggest(&e.a, d).or_else(|| if unary(e.op) { None } else { suggest(&e.b, d) })
        }
    }
}
fn suggest_full(s: &Sc, d: &dyn Doms) -> Option<(Atom, Vec<Set>)> {
    suggest(s, d)
}
fn find_tab(s: &Sc, d: &dyn Doms) -> Option<(Atom, Vec<Set>)> {
    match s {
        Sc::Tab(a, t) if card(&d.dom(*a)) > 2 => Some((*a, partition(*a, d, |i| t[i]))),
        Sc::Ex(e) => {
            if matches!(e.op, Op::Shl | Op::Shr) {
                if let Some(x) = find_tab(&e.b, d) {
                    return Some(x);
                }
            }
            find_tab(&e.a, d).or_else(|| if unary(e.op) { None } else { find_tab(&e.b, d) })
        }
        _ => None,
    }
}
pub fn partition(a: Atom, d: &dyn Doms, f: impl Fn(usize) -> u128) -> Vec<Set> {
    let dm = d.dom(a);
    let mut out: Vec<(u128, Set)> = vec![];
    for i in elems(&dm) {
        let v = f(i);
        match out.iter_mut().find(|x| x.0 == v) {
            Some(x) => add(&mut x.1, i),
            None => {
                let mut s = [0; 4];
                add(&mut s, i);
                out.push((v, s));
            }
        }
    }
    out.into_iter().map(|x| x.1).collect()
}

/// atoms a scalar depends on
pub fn support(s: &Sc, out: &mut Vec<Atom>) {
    match s {
        Sc::C(_) | Sc::Unk(..) => (),
        Sc::Tab(a, _) => out.push(*a),
        Sc::Bits(b) => {
            for x in b.iter() {
                if let Bit::P(a, _) = x {
                    out.push(*a)
                }
            }
        }
        Sc::Ex(e) => {
            support(&e.a, out);
            support(&e.b, out)
        }
    }
}

/// replace atoms
pub fn rename(s: &Sc, f: &dyn Fn(Atom) -> Atom) -> Sc {
    match s {
        Sc::C(_) | Sc::Unk(..) => s.clone(),
        Sc::Tab(a, t) => Sc::Tab(f(*a), t.clone()),
        Sc::Bits(b) => Sc::Bits(
            b.iter().map(|x| if let Bit::P(a, s) = x { Bit::P(f(*a), *s) } else { *x }).collect::<Vec<_>>().into(),
        ),
        Sc::Ex(e) => ex(e.op, e.w, e.signed, rename(&e.a, f), rename(&e.b, f)),
    }
}
