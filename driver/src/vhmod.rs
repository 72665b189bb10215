//! The vocabulary of the rule files (module `vh` of the harness crate).
use crate::interp::*;
use crate::models::*;
use crate::outlog;
use crate::sc::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::GenericArgsRef;
use std::rc::Rc;

pub enum Vh<'tcx> {
    Val(Val<'tcx>),
    Done,
}

fn subset<'tcx>(it: &mut It<'tcx>, v: &Val<'tcx>, key: &str, n: &mut usize) -> R<Val<'tcx>> {
    Ok(match v {
        Val::S(Sc::C(x)) => {
            let mut bits = vec![];
            for i in 0..128 {
                if x >> i & 1 == 1 {
                    let a = atom(&format!("{key} has member {n}"), 2, Labels::Bool);
                    *n += 1;
                    let mut s = [0; 4];
                    add(&mut s, 1);
                    bits.push(Bit::P(a, s));
                } else {
                    bits.push(Bit::Z);
                }
            }
            while bits.last() == Some(&Bit::Z) {
                bits.pop();
            }
            Val::S(Sc::Bits(bits.into()))
        }
        Val::Agg(a) => {
            let mut r = vec![];
            for x in a.iter() {
                r.push(subset(it, x, key, n)?);
            }
            agg(r)
        }
        _ => return unsup("any_subset of an unsupported representation"),
    })
}

/// identity of abstract values; pointers to the same contents are the same
fn val_eq<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, a: &Val<'tcx>, b: &Val<'tcx>) -> R<bool> {
    Ok(match (a, b) {
        (Val::S(x), Val::S(y)) => {
            let (x, y) = (simp(x, st), simp(y, st));
            if x == y {
                true
            } else {
                it.decide(st, &mk(Op::Eq, 128, false, x, y, st))?
            }
        }
        (Val::Agg(x), Val::Agg(y)) => {
            if x.len() != y.len() {
                return Ok(false);
            }
            for (p, q) in x.iter().zip(y.iter()) {
                if !val_eq(it, st, p, q)? {
                    return Ok(false);
                }
            }
            true
        }
        (Val::En(x), Val::En(y)) => {
            if x == y {
                return Ok(true);
            }
            let (i, j) = (it.konst(st, &x.disc)?, it.konst(st, &y.disc)?);
            if i != j {
                return Ok(false);
            }
            let e = vec![];
            let f = x.vars.iter().find(|v| v.0 as u128 == i).map_or(&e, |v| &v.1).clone();
            let g = y.vars.iter().find(|v| v.0 as u128 == i).map_or(&e, |v| &v.1).clone();
            for (p, q) in f.iter().zip(g.iter()) {
                if !val_eq(it, st, p, q)? {
                    return Ok(false);
                }
            }
            f.len() == g.len()
        }
        (Val::P(x), Val::P(y)) => {
            if x == y {
                return Ok(true);
            }
            if let (Meta::Len(_), Meta::Len(_)) = (&x.meta, &y.meta) {
                let (p, q) = (bytes_of(it, st, a)?, bytes_of(it, st, b)?);
                if p.len() != q.len() {
                    return Ok(false);
                }
                for (m, n) in p.into_iter().zip(q) {
                    if !val_eq(it, st, &Val::S(m), &Val::S(n))? {
                        return Ok(false);
                    }
                }
                return Ok(true);
            }
            let (p, q) = (it.read(st, x)?, it.read(st, y)?);
            val_eq(it, st, &p, &q)?
        }
        (Val::Agg(x), y) | (y, Val::Agg(x)) if x.len() == 1 => val_eq(it, st, &x[0], y)?,
        (x, y) => x == y,
    })
}

fn stream_name(k: u128) -> &'static str {
    if k == 0 {
        "stdout"
    } else {
        "stderr"
    }
}

pub fn vh_call<'tcx>(
    it: &mut It<'tcx>,
    st: &mut State<'tcx>,
    path: &str,
    _d: DefId,
    gargs: GenericArgsRef<'tcx>,
    vals: &[Val<'tcx>],
    cx: &Ctx<'tcx>,
) -> R<Option<Vh<'tcx>>> {
    let Some(name) = path.strip_prefix("colorz_harness::vh::") else { return Ok(None) };
    let v = |x: Val<'tcx>| Ok(Some(Vh::Val(x)));
    let b = |x: bool| Ok(Some(Vh::Val(con(x as u128))));
    match name {
        "any" => {
            let k = str_of(it, st, &vals[0])?;
            let t = gargs.types().next().unwrap();
            v(it.sym(st, t, &k)?)
        }
        "any_text" => {
            let k = str_of(it, st, &vals[0])?;
            let n = it.int(st, &vals[1])?;
            let p = st.alloc(Val::SymBytes(k.as_str().into()));
            v(Val::P(Rc::new(PtrV { base: p.base, path: vec![PE::I(0)], meta: Meta::Len(Sc::C(n)) })))
        }
        "any_subset" => {
            let k = str_of(it, st, &vals[0])?;
            let mut n = 0;
            v(subset(it, &vals[1], &k, &mut n)?)
        }
        "assume" => {
            let c = it.sc(st, &vals[0])?;
            if !it.decide(st, &c)? {
                return Err(E::Dead);
            }
            v(unit())
        }
        "check" => {
            let m = str_of(it, st, &vals[1])?;
            let c = it.sc(st, &vals[0])?;
            let ok = it.decide(st, &c)?;
            it.stats.checks += 1;
            *it.check_sites.entry(m.clone()).or_insert(0) += 1;
            if !ok {
                return Err(E::Fail(m, String::new()));
            }
            v(unit())
        }
        "new_sink" => {
            let f = it.int(st, &vals[0])? != 0;
            st.sinks.push(Sink { log: Rc::new(vec![]), failing: f, failed: false, after: false, after_site: None });
            v(con(st.sinks.len() as u128 - 1))
        }
        "formatter" => {
            let s = it.int(st, &vals[0])?;
            let p = st.alloc(Val::Fmtr(s as u32, 0));
            v(Val::P(Rc::new(p)))
        }
        "plain_formatter" => {
            let s = it.int(st, &vals[0])?;
            let p = st.alloc(Val::Fmtr(s as u32, 1));
            v(Val::P(Rc::new(p)))
        }
        "same" | "sgr_same" | "sgr_same_set" => {
            let x = it.int(st, &vals[0])? as usize;
            let y = it.int(st, &vals[1])? as usize;
            let r = match name {
                "same" => outlog::same(it, st, x, y)?,
                "sgr_same" => outlog::sgr_same(it, st, x, y, false)?,
                _ => outlog::sgr_same(it, st, x, y, true)?,
            };
            if let Err(e) = &r {
                st.diag = Rc::new(format!("output #{x} compared with expected output #{y}: {e}"));
            }
            b(r.is_ok())
        }
        "same_value" => {
            let (p, q) = (it.ptr(&vals[0])?.clone(), it.ptr(&vals[1])?.clone());
            let (x, y) = (it.read(st, &p)?, it.read(st, &q)?);
            let r = val_eq(it, st, &x, &y)?;
            if !r {
                st.diag = Rc::new(format!("value {x:?} where {y:?} is required"));
            }
            b(r)
        }
        "put_digit" => {
            let x = it.int(st, &vals[0])? as usize;
            let d = it.sc(st, &vals[1])?;
            let c = mk(Op::Add, 8, false, d, Sc::C(48), st);
            let mut l = (*st.sinks[x].log).clone();
            l.push((Ev::Str(Rc::new(vec![c])), None));
            st.sinks[x].log = Rc::new(l);
            v(unit())
        }
        "text_at" => {
            let x = it.int(st, &vals[0])? as usize;
            let i = it.int(st, &vals[1])? as usize;
            let mut bytes = vec![];
            for (e, _) in st.sinks[x].log.iter() {
                match e {
                    Ev::Str(b) => bytes.extend(b.iter().cloned()),
                    _ => return unsup("text_at: output that is not text"),
                }
            }
            v(Val::S(bytes.get(i).cloned().unwrap_or(Sc::C(256))))
        }
        "is_empty" => {
            let x = it.int(st, &vals[0])? as usize;
            b(st.sinks[x].log.is_empty())
        }
        "sgr_ok" | "args_ok" => {
            let x = it.int(st, &vals[0])? as usize;
            let r = outlog::wellformed(it, st, x, name == "args_ok")?;
            if let Err(e) = &r {
                st.diag = Rc::new(format!("output #{x}: {e}"));
            }
            b(r.is_ok())
        }
        "wrote_after_error" => {
            let x = it.int(st, &vals[0])? as usize;
            if let Some((d, s)) = st.sinks[x].after_site {
                let t = format!("written after the error at: {} ({})", it.path(d), crate::span_str(it.tcx, s));
                st.diag = Rc::new(t);
            }
            b(st.sinks[x].after)
        }
        "error_happened" => {
            let x = it.int(st, &vals[0])? as usize;
            b(st.sinks[x].failed)
        }
        "record_relation" => {
            let k = match &vals[0] {
                Val::En(e) => it.konst(st, &e.disc)?,
                x => it.int(st, x)?,
            };
            let p = it.int(st, &vals[1])?;
            it.relation_acc.insert((k, p));
            v(unit())
        }
        "shard" => v(con(it.shard)),
        "concurrent" => {
            st.conc = it.int(st, &vals[0])? != 0;
            v(unit())
        }
        "cell_full" => {
            // a cell that is written once; the operation another thread may come in between
            let p = it.ptr(&vals[0])?.clone();
            if interrupted(it, st, &p)? {
                run_other(it, st, cx, false)?;
                return Ok(Some(Vh::Done));
            }
            let mut s2 = st.clone();
            let x = cell_load(it, &mut s2, &p)?;
            let Val::En(e) = &x else { return unsup("cell") };
            let k = it.konst(&s2, &e.disc)?;
            if k == 2 {
                // it is being written: by the thread that this one interrupts, or by this thread itself
                return Err(if s2.other_frame.is_some() {
                    E::Dead
                } else {
                    E::Panic("a cell is initialised from within its own initialisation".into())
                });
            }
            *st = s2;
            b(k == 1)
        }
        "cell_begin" => {
            let p = it.ptr(&vals[0])?.clone();
            it.write_raw(st, &p, Val::En(Rc::new(EnumV { disc: Sc::C(2), vars: vec![] })))?;
            v(unit())
        }
        "cell_put" => {
            let p = it.ptr(&vals[0])?.clone();
            it.write(st, &p, Val::En(Rc::new(EnumV { disc: Sc::C(1), vars: vec![(1, vec![vals[1].clone()])] })))?;
            v(unit())
        }
        "cell_ref" => {
            let mut p = (*it.ptr(&vals[0])?.clone()).clone();
            p.path.push(PE::D(1));
            p.path.push(PE::F(0));
            v(Val::P(Rc::new(p)))
        }
        "lazy_cell" => {
            let mut p = (*it.ptr(&vals[0])?.clone()).clone();
            p.path.push(PE::F(0));
            v(Val::P(Rc::new(p)))
        }
        "lazy_init" => {
            let mut p = (*it.ptr(&vals[0])?.clone()).clone();
            p.path.push(PE::F(1));
            v(it.read(st, &p)?)
        }
        "environment_changes" => {
            st.env_gen += 1;
            v(unit())
        }
        "meanwhile" => {
            st.other = Some((vals[0].clone(), it.norm(gargs.type_at(0))));
            v(unit())
        }
        "joined" => {
            run_other(it, st, cx, true)?;
            Ok(Some(Vh::Done))
        }
        "probe_count" => {
            let k = it.int(st, &vals[0])?;
            let n = st.probes.iter().filter(|p| &*p.0 == stream_name(k)).count();
            v(con(n as u128))
        }
        "probe" => {
            let s = it.int(st, &vals[0])?;
            let k = it.int(st, &vals[1])? as usize;
            let f = it.int(st, &vals[2])? as usize;
            let Some(p) = st.probes.iter().filter(|p| &*p.0 == stream_name(s)).nth(k) else { return unsup("no such probe") };
            v(Val::S(p.1[f].clone()))
        }
        "probe_fields" => v(con(st.probes.first().map_or(0, |p| p.1.len()) as u128)),
        "env_forces" => {
            let n = str_of(it, st, &vals[0])?;
            let a = env_atom(&env_now(st, &n));
            v(Val::S(tab(a, ENV_CLASSES.iter().map(|c| (*c != "unset" && *c != "\"0\"") as u128).collect())))
        }
        "globals_touched" => {
            let r = !st.globals_used.is_empty();
            if r {
                let l: Vec<String> = st
                    .globals_used
                    .clone()
                    .iter()
                    .map(|(w, s)| {
                        let at = s.map(|(d, s)| format!("{} ({})", it.path(d), crate::span_str(it.tcx, s))).unwrap_or_default();
                        format!("{w} at {at}")
                    })
                    .collect();
                st.diag = Rc::new(format!("global state used: {}", l.join("; ")));
            }
            b(r)
        }
        "stores_done" => {
            let l: Vec<String> = st
                .globals_used
                .clone()
                .iter()
                .filter(|(w, _)| w.starts_with("store:"))
                .map(|(w, s)| {
                    let at = s.map(|(d, s)| format!("{} ({})", it.path(d), crate::span_str(it.tcx, s))).unwrap_or_default();
                    format!("{w} at {at}")
                })
                .collect();
            if !l.is_empty() {
                st.diag = Rc::new(format!("global state changed: {}", l.join("; ")));
            }
            b(!l.is_empty())
        }
        "forget_globals" => {
            st.globals_used.clear();
            v(unit())
        }
        "branch" => {
            // make the path decide this condition here
            let c = it.sc(st, &vals[0])?;
            let r = it.decide(st, &c)?;
            b(r)
        }
        "feature" => {
            let n = str_of(it, st, &vals[0])?;
            b(it.features.contains(&n))
        }
        _ => {
            let _ = cx;
            Ok(None)
        }
    }
}
