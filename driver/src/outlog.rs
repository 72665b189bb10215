//! Output logs: comparison, SGR structure.
use crate::interp::*;
use crate::sc::*;
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Tok {
    B(Sc),
    /// parameters written by an unknown colour: layer, colour term
    C(char, Rc<str>),
    O(Rc<str>),
}

pub fn toks<'tcx>(it: &It<'tcx>, st: &State<'tcx>, i: usize) -> Vec<Tok> {
    let mut out = vec![];
    for (e, _) in st.sinks[i].log.iter() {
        match e {
            Ev::Str(b) => out.extend(b.iter().map(|x| Tok::B(simp(x, st)))),
            Ev::Color(l, args, t) => {
                if !*args {
                    out.push(Tok::B(Sc::C(27)));
                    out.push(Tok::B(Sc::C(b'[' as u128)));
                }
                out.push(Tok::C(*l, t.clone()));
                if !*args {
                    out.push(Tok::B(Sc::C(b'm' as u128)));
                }
            }
            Ev::Opq(s) => out.push(Tok::O(s.clone())),
            Ev::Pad(o, b) => {
                out.push(Tok::O(format!("padded with options {} <", it.opts_tab[*o as usize]).into()));
                out.extend(b.iter().map(|x| Tok::B(simp(x, st))));
                out.push(Tok::O(">".into()));
            }
        }
    }
    out
}

fn show_toks(t: &[Tok]) -> String {
    let mut s = String::new();
    for x in t {
        match x {
            Tok::B(Sc::C(c)) => {
                let c = *c as u8;
                if c == 27 {
                    s.push_str("ESC");
                } else if c.is_ascii_graphic() || c == b' ' {
                    s.push(c as char)
                } else {
                    s.push_str(&format!("\\x{c:02x}"))
                }
            }
            Tok::B(o) => {
                let mut a = vec![];
                support(o, &mut a);
                a.sort();
                a.dedup();
                let n: Vec<String> = a.iter().take(3).map(|a| atom_name(*a)).collect();
                s.push_str(&format!("<byte of {}>", n.join(",")))
            }
            Tok::C(l, t) => {
                let l = match l {
                    'f' => "foreground",
                    'b' => "background",
                    _ => "underline",
                };
                s.push_str(&format!("<{l} args of {t}>"))
            }
            Tok::O(t) => s.push_str(&format!("<{t}>")),
        }
    }
    s
}
pub fn show<'tcx>(it: &It<'tcx>, st: &State<'tcx>, i: usize) -> String {
    show_toks(&toks(it, st, i))
}

pub fn same<'tcx>(it: &It<'tcx>, st: &State<'tcx>, a: usize, b: usize) -> R<Result<(), String>> {
    let x = toks(it, st, a);
    let y = toks(it, st, b);
    for i in 0..x.len().max(y.len()) {
        let bad = match (x.get(i), y.get(i)) {
            (Some(Tok::B(p)), Some(Tok::B(q))) => {
                let e = mk(Op::Eq, 8, false, p.clone(), q.clone(), st);
                !it.decide(st, &e)?
            }
            (Some(Tok::C(l, t)), Some(Tok::C(m, u))) => l != m || t != u,
            (Some(Tok::O(t)), Some(Tok::O(u))) => t != u,
            _ => true,
        };
        if bad {
            return Ok(Err(format!("they differ at item {i}: {:?} and {:?}", x.get(i).map(|t| show_toks(&[t.clone()])), y.get(i).map(|t| show_toks(&[t.clone()])))));
        }
    }
    Ok(Ok(()))
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Cls {
    Esc,
    Open,
    Digit,
    Semi,
    M,
    Other,
}
fn cls_of(c: u128) -> Cls {
    match c as u8 {
        27 => Cls::Esc,
        b'[' => Cls::Open,
        b'0'..=b'9' => Cls::Digit,
        b';' => Cls::Semi,
        b'm' => Cls::M,
        _ => Cls::Other,
    }
}
fn classify<'tcx>(it: &It<'tcx>, st: &State<'tcx>, s: &Sc) -> R<Cls> {
    match s {
        Sc::C(c) => Ok(cls_of(*c)),
        Sc::Tab(a, t) => {
            let p = partition(*a, st, |i| cls_of(t[i]) as u128);
            if p.len() == 1 {
                let d = st.dom(*a);
                let i = elems(&d).next().unwrap();
                Ok(cls_of(t[i]))
            } else {
                Err(E::Need(*a, p))
            }
        }
        o => {
            let (lo, hi) = range(o, st);
            if lo >= 48 && hi <= 57 {
                return Ok(Cls::Digit);
            }
            let k = it.konst(st, o)?;
            Ok(cls_of(k))
        }
    }
}

#[derive(Clone, Debug)]
pub enum Param {
    Num(Vec<Sc>),
    Col(char, Rc<str>),
}
/// parse a list of parameters up to `m` (or the end when `args`)
fn params<'tcx>(it: &It<'tcx>, st: &State<'tcx>, t: &[Tok], i: &mut usize, args: bool) -> R<Result<Vec<Param>, String>> {
    let mut out = vec![];
    let mut cur: Vec<Sc> = vec![];
    let mut col: Option<Param> = None;
    loop {
        if *i >= t.len() {
            if !args {
                return Ok(Err("sequence without its final `m`".into()));
            }
            break;
        }
        match &t[*i] {
            Tok::C(l, s) => {
                if !cur.is_empty() || col.is_some() {
                    return Ok(Err("parameters run into each other without a semicolon".into()));
                }
                col = Some(Param::Col(*l, s.clone()));
            }
            Tok::O(s) => return Ok(Err(format!("text inside a sequence: {s}"))),
            Tok::B(s) => match classify(it, st, s)? {
                Cls::Digit => {
                    if col.is_some() {
                        return Ok(Err("parameters run into each other without a semicolon".into()));
                    }
                    cur.push(s.clone())
                }
                c @ (Cls::Semi | Cls::M) => {
                    if c == Cls::M && args {
                        return Ok(Err("`m` inside arguments".into()));
                    }
                    match col.take() {
                        Some(c) => out.push(c),
                        None if cur.is_empty() => return Ok(Err("empty parameter".into())),
                        None => out.push(Param::Num(std::mem::take(&mut cur))),
                    }
                    if c == Cls::M {
                        *i += 1;
                        return Ok(Ok(out));
                    }
                }
                _ => return Ok(Err("a byte that is no digit, semicolon or `m` inside a sequence".into())),
            },
        }
        *i += 1;
    }
    match col.take() {
        Some(c) => out.push(c),
        None if cur.is_empty() => return Ok(Err("empty parameter".into())),
        None => out.push(Param::Num(cur)),
    }
    Ok(Ok(out))
}

fn parse<'tcx>(it: &It<'tcx>, st: &State<'tcx>, k: usize, args: bool) -> R<Result<Vec<Vec<Param>>, String>> {
    let t = toks(it, st, k);
    let mut i = 0;
    let mut out = vec![];
    if args {
        return match params(it, st, &t, &mut i, true)? {
            Ok(p) => Ok(Ok(vec![p])),
            Err(e) => Ok(Err(format!("{e} in {}", show_toks(&t)))),
        };
    }
    while i < t.len() {
        let mut head = vec![];
        for k in 0..2 {
            let c = match t.get(i + k) {
                Some(Tok::B(s)) => Some(classify(it, st, s)?),
                _ => None,
            };
            head.push(c);
        }
        if head != [Some(Cls::Esc), Some(Cls::Open)] {
            return Ok(Err(format!("text outside an escape sequence at item {i} in {}", show_toks(&t))));
        }
        i += 2;
        match params(it, st, &t, &mut i, false)? {
            Ok(p) => out.push(p),
            Err(e) => return Ok(Err(format!("{e} in {}", show_toks(&t)))),
        }
    }
    Ok(Ok(out))
}
pub fn wellformed<'tcx>(it: &It<'tcx>, st: &State<'tcx>, k: usize, args: bool) -> R<Result<(), String>> {
    let seqs = match parse(it, st, k, args)? {
        Ok(s) => s,
        Err(e) => return Ok(Err(e)),
    };
    if args {
        // arguments may lack the code of their layer, so only whole sequences are read as commands
        return Ok(Ok(()));
    }
    for s in seqs {
        let mut i = 0;
        while i < s.len() {
            let n = match num(&s[i]) {
                Some(38 | 48 | 58) => match s.get(i + 1).and_then(num) {
                    Some(5) if i + 2 < s.len() => 3,
                    Some(2) if i + 4 < s.len() => 5,
                    _ => return Ok(Err(format!("incomplete extended colour in {}", show_toks(&toks(it, st, k))))),
                },
                Some(0..=9 | 21..=29 | 30..=37 | 39..=47 | 49 | 53 | 55 | 59 | 73..=75 | 90..=97 | 100..=107) => 1,
                // an unknown colour's arguments; nothing certain about what follows a partly known number
                None if matches!(s[i], Param::Col(..)) => 1,
                None => break,
                Some(c) => return Ok(Err(format!("{c} is no code of this library in {}", show_toks(&toks(it, st, k))))),
            };
            if s[i..i + n].iter().skip(2).any(|p| num(p).map_or(false, |v| v > 255)) {
                return Ok(Err(format!("a colour argument above 255 in {}", show_toks(&toks(it, st, k)))));
            }
            i += n;
        }
    }
    Ok(Ok(()))
}

fn num(p: &Param) -> Option<u32> {
    match p {
        Param::Num(d) => {
            let mut v: u32 = 0;
            for x in d {
                match x {
                    Sc::C(c) => v = v.saturating_mul(10).saturating_add((*c as u32).wrapping_sub(48)),
                    _ => return None,
                }
            }
            Some(v)
        }
        _ => None,
    }
}

type Cmd = Vec<Param>;
/// the terminal commands selected by an output
fn commands<'tcx>(it: &It<'tcx>, st: &State<'tcx>, k: usize) -> R<Result<Vec<Cmd>, String>> {
    let seqs = match parse(it, st, k, false)? {
        Ok(s) => s,
        Err(e) => return Ok(Err(e)),
    };
    let mut out = vec![];
    for s in seqs {
        let mut i = 0;
        while i < s.len() {
            let n = match num(&s[i]) {
                Some(38 | 48 | 58) => match s.get(i + 1).and_then(num) {
                    Some(5) if i + 2 < s.len() => 3,
                    Some(2) if i + 4 < s.len() => 5,
                    _ => return Ok(Err("incomplete extended colour".into())),
                },
                _ => 1,
            };
            out.push(s[i..i + n].to_vec());
            i += n;
        }
    }
    Ok(Ok(out))
}
fn cmd_eq<'tcx>(it: &It<'tcx>, st: &State<'tcx>, a: &Cmd, b: &Cmd) -> R<bool> {
    if a.len() != b.len() {
        return Ok(false);
    }
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Param::Col(l, s), Param::Col(m, t)) => {
                if l != m || s != t {
                    return Ok(false);
                }
            }
            (Param::Num(p), Param::Num(q)) => {
                if p.len() != q.len() {
                    return Ok(false);
                }
                for (u, v) in p.iter().zip(q) {
                    let e = mk(Op::Eq, 8, false, u.clone(), v.clone(), st);
                    if !it.decide(st, &e)? {
                        return Ok(false);
                    }
                }
            }
            _ => return Ok(false),
        }
    }
    Ok(true)
}
fn show_cmd(c: &Cmd) -> String {
    c.iter()
        .map(|p| match p {
            Param::Num(d) => show_toks(&d.iter().map(|x| Tok::B(x.clone())).collect::<Vec<_>>()),
            Param::Col(l, s) => show_toks(&[Tok::C(*l, s.clone())]),
        })
        .collect::<Vec<_>>()
        .join(";")
}
/// equal as multisets (or sets) of terminal commands
pub fn sgr_same<'tcx>(it: &It<'tcx>, st: &State<'tcx>, a: usize, b: usize, set: bool) -> R<Result<(), String>> {
    let x = match commands(it, st, a)? {
        Ok(x) => x,
        Err(e) => return Ok(Err(e)),
    };
    let y = match commands(it, st, b)? {
        Ok(x) => x,
        Err(e) => return Ok(Err(format!("expected output: {e}"))),
    };
    let mut used = vec![false; y.len()];
    for c in &x {
        let mut hit = false;
        for (j, d) in y.iter().enumerate() {
            if (set || !used[j]) && cmd_eq(it, st, c, d)? {
                used[j] = true;
                hit = true;
                if !set {
                    break;
                }
            }
        }
        if !hit {
            return Ok(Err(format!("unexpected or repeated command `{}`", show_cmd(c))));
        }
    }
    if let Some(j) = used.iter().position(|u| !u) {
        return Ok(Err(format!("missing command `{}`", show_cmd(&y[j]))));
    }
    Ok(Ok(()))
}
