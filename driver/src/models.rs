//! Calls: resolution, opaque (generic) calls, and the trusted models of library functions.
use crate::interp::*;
use crate::sc::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::BasicBlock;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty};
use rustc_span::Span;
use std::rc::Rc;

pub struct Ctx<'tcx> {
    pub dest: PtrV<'tcx>,
    pub target: Option<BasicBlock>,
    pub ret_ty: Ty<'tcx>,
    pub span: Span,
}

#[allow(clippy::too_many_arguments)]
pub fn call<'tcx>(
    it: &mut It<'tcx>,
    st: &mut State<'tcx>,
    d: DefId,
    gargs: GenericArgsRef<'tcx>,
    vals: Vec<Val<'tcx>>,
    dest: PtrV<'tcx>,
    target: Option<BasicBlock>,
    ret_ty: Ty<'tcx>,
    span: Span,
) -> R<()> {
    let cx = Ctx { dest, target, ret_ty, span };
    call_def(it, st, d, gargs, vals, cx)
}

fn call_def<'tcx>(
    it: &mut It<'tcx>,
    st: &mut State<'tcx>,
    d: DefId,
    gargs: GenericArgsRef<'tcx>,
    vals: Vec<Val<'tcx>>,
    cx: Ctx<'tcx>,
) -> R<()> {
    let path = it.path(d);
    if let Some(tr) = it.tcx.trait_of_assoc(d) {
        let tp = it.path(tr);
        if matches!(
            &*tp,
            "core::ops::function::FnOnce" | "core::ops::function::FnMut" | "core::ops::function::Fn"
        ) {
            return call_fn_trait(it, st, gargs.type_at(0), d, vals, cx);
        }
    }
    if let Some(r) = crate::vhmod::vh_call(it, st, &path, d, gargs, &vals, &cx)? {
        return match r {
            crate::vhmod::Vh::Val(v) => fin(it, st, &cx, v),
            crate::vhmod::Vh::Done => Ok(()),
        };
    }
    if let Some(i) = it.tcx.intrinsic(d) {
        let name = i.name.to_string();
        return intrinsic(it, st, &name, d, gargs, vals, cx, !i.must_be_overridden);
    }
    if let Some(done) = model(it, st, &path, d, gargs, &vals, &cx)? {
        return finish_model(it, st, cx, done);
    }
    match Instance::try_resolve(it.tcx, it.env, d, gargs) {
        Ok(Some(inst)) => call_inst(it, st, inst, vals, cx),
        Ok(None) => opaque_call(it, st, d, gargs, vals, cx),
        Err(_) => unsup(format!("resolution of {path}")),
    }
}

#[allow(clippy::too_many_arguments)]
pub fn call_instance<'tcx>(
    it: &mut It<'tcx>,
    st: &mut State<'tcx>,
    inst: Instance<'tcx>,
    mut vals: Vec<Val<'tcx>>,
    dest: PtrV<'tcx>,
    target: Option<BasicBlock>,
    ret_ty: Ty<'tcx>,
    span: Span,
) -> R<()> {
    let cx = Ctx { dest, target, ret_ty, span };
    let closure = match inst.def {
        InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => true,
        InstanceKind::Item(d) => it.tcx.is_closure_like(d),
        _ => false,
    };
    if closure {
        // a pointer to a closure without captures: its environment is not passed
        vals.insert(0, unit());
        let t = match inst.def {
            InstanceKind::Item(d) => ty::Ty::new_closure(it.tcx, d, inst.args),
            _ => inst.args.type_at(0),
        };
        let m = it.tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::FnOnce, span);
        let md = it.tcx.associated_items(m).in_definition_order().find(|a| a.is_fn()).unwrap().def_id;
        return call_fn_trait(it, st, t, md, vals, cx);
    }
    if let InstanceKind::Item(d) = inst.def {
        if it.tcx.trait_of_assoc(d).is_some() {
            // a function pointer to a trait method
            return call_def(it, st, d, inst.args, vals, cx);
        }
    }
    call_inst(it, st, inst, vals, cx)
}

pub enum Done<'tcx> {
    Val(Val<'tcx>),
    Did,
}
fn finish_model<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, cx: Ctx<'tcx>, d: Done<'tcx>) -> R<()> {
    match d {
        Done::Val(v) => fin(it, st, &cx, v),
        Done::Did => Ok(()),
    }
}
pub fn fin<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, cx: &Ctx<'tcx>, v: Val<'tcx>) -> R<()> {
    let native = st.frames.last().map_or(false, |f| f.native.is_some());
    if native {
        return it.write(st, &cx.dest, v);
    }
    it.finish_call(st, &cx.dest, cx.target, v)
}

fn call_inst<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, inst: Instance<'tcx>, vals: Vec<Val<'tcx>>, cx: Ctx<'tcx>) -> R<()> {
    match inst.def {
        InstanceKind::Item(d) => {
            let path = it.path(d);
            if let Some(done) = model(it, st, &path, d, inst.args, &vals, &cx)? {
                return finish_model(it, st, cx, done);
            }
            let sig_never = {
                let t = it.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                matches!(t.kind(), ty::FnDef(..))
                    && it.tcx.fn_sig(d).instantiate_identity().skip_norm_wip().output().skip_binder().is_never()
            };
            if sig_never {
                let m = panic_message(it, st, &vals);
                let short = path.rsplit("::").next().unwrap_or("").to_string();
                return Err(E::Panic(format!("call of {short}{m}")));
            }
            let body = it.body(inst, None)?;
            it.push_frame(st, inst, body, vals, Some((cx.dest, cx.target)), cx.span)
        }
        InstanceKind::Intrinsic(d) => {
            let name = it.tcx.item_name(d).to_string();
            let fb = it.tcx.intrinsic(d).map_or(false, |i| !i.must_be_overridden);
            intrinsic(it, st, &name, d, inst.args, vals, cx, fb)
        }
        InstanceKind::Virtual(d, _) => {
            let p = it.ptr(&vals[0])?.clone();
            let Meta::Vt(t) = p.meta.clone() else { return unsup("virtual call without a known type") };
            let mut v = vals;
            let mut q = (*p).clone();
            q.meta = Meta::None;
            v[0] = Val::P(Rc::new(q));
            let rest: Vec<ty::GenericArg<'tcx>> = inst.args.iter().skip(1).collect();
            let mut a: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
            a.extend(rest);
            let ga = it.tcx.mk_args(&a);
            call_def(it, st, d, ga, v, cx)
        }
        InstanceKind::Shim(k) => match k {
            ShimKind::Clone(..) => {
                let p = it.ptr(&vals[0])?.clone();
                let v = it.read(st, &p)?;
                fin(it, st, &cx, v)
            }
            ShimKind::DropGlue(..) => fin(it, st, &cx, unit()),
            ShimKind::VTable(d) | ShimKind::Reify(d, _) => {
                let i2 = Instance::new_raw(d, inst.args);
                call_inst(it, st, i2, vals, cx)
            }
            ShimKind::ClosureOnce { .. } | ShimKind::FnPtr(..) => {
                let t = inst.args.type_at(0);
                call_fn_trait(it, st, t, inst.def_id(), vals, cx)
            }
            k => unsup(format!("shim {k:?}")),
        },
        k => unsup(format!("instance {k:?}")),
    }
}

/// does the other thread run just before this operation on a static?
pub fn interrupted<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, p: &PtrV<'tcx>) -> R<bool> {
    let Some(d) = static_of(p) else { return Ok(false) };
    if st.other.is_none() || it.tcx.is_thread_local_static(d) {
        return Ok(false);
    }
    let mut s2 = st.clone();
    let k = s2.count("atomic operation");
    let names = vec!["later or not".to_string(), "here".to_string()];
    let a = atom(&format!("the other thread runs before atomic operation #{k}"), 2, Labels::Names(Rc::new(names)));
    let dm = st.dom(a);
    if card(&dm) > 1 {
        return Err(E::Need(a, partition(a, st, |i| i as u128)));
    }
    *st = s2;
    Ok(has(&dm, 1))
}
/// Let the other thread run. `join`: as the call that waits for it; otherwise the interrupted operation is tried
/// again afterwards.
pub fn run_other<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, cx: &Ctx<'tcx>, join: bool) -> R<()> {
    let Some((f, t)) = st.other.clone() else { return fin(it, st, cx, unit()) };
    let mut s2 = st.clone();
    s2.other = None;
    let m = it.tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::FnOnce, cx.span);
    let md = it.tcx.associated_items(m).in_definition_order().find(|i| i.name().as_str() == "call_once").unwrap().def_id;
    let depth = s2.frames.len();
    let cx2 = Ctx { dest: cx.dest.clone(), target: cx.target, ret_ty: it.tcx.types.unit, span: cx.span };
    call_fn_trait(it, &mut s2, t, md, vec![f], cx2)?;
    if s2.frames.len() != depth + 1 {
        return unsup("the other thread is not a closure");
    }
    if !join {
        let top = s2.frames.last_mut().unwrap();
        top.ret = None;
        s2.other_frame = Some((depth, Some(0)));
    } else {
        s2.other_frame = Some((depth, None));
    }
    *st = s2;
    Ok(())
}

/// call through Fn/FnMut/FnOnce; `vals` = callee, then the already flattened arguments
fn call_fn_trait<'tcx>(
    it: &mut It<'tcx>,
    st: &mut State<'tcx>,
    self_ty: Ty<'tcx>,
    method: DefId,
    mut vals: Vec<Val<'tcx>>,
    cx: Ctx<'tcx>,
) -> R<()> {
    let by_ref = it.tcx.item_name(method).as_str() != "call_once";
    let mut t = it.norm(self_ty);
    let mut f = vals.remove(0);
    // make `f` the callee value or a reference to it
    let mut have_ref = by_ref;
    while let ty::Ref(_, inner, _) = t.kind() {
        if have_ref {
            let p = it.ptr(&f)?.clone();
            f = it.read(st, &p)?;
        }
        have_ref = true;
        t = *inner;
    }
    match t.kind() {
        ty::FnDef(d, a) => {
            let a = it.norm(a.no_bound_vars().unwrap());
            call_def(it, st, *d, a, vals, cx)
        }
        ty::FnPtr(..) => {
            if have_ref {
                let p = it.ptr(&f)?.clone();
                f = it.read(st, &p)?;
            }
            let Val::Fn(i) = f else { return unsup("unknown function pointer") };
            call_instance(it, st, i, vals, cx.dest, cx.target, cx.ret_ty, cx.span)
        }
        ty::Closure(d, a) => {
            let kind = a.as_closure().kind();
            let inst = Instance::resolve_closure(it.tcx, *d, a, kind);
            let body = it.body(inst, None)?;
            let arg0 = if kind == ty::ClosureKind::FnOnce {
                if have_ref {
                    let p = it.ptr(&f)?.clone();
                    it.read(st, &p)?
                } else {
                    f
                }
            } else if have_ref {
                f
            } else {
                Val::P(Rc::new(st.alloc(f)))
            };
            let mut args = vec![arg0];
            // the closure body takes its arguments untupled after lowering (spread) or as one tuple
            if body.spread_arg.is_some() {
                args.extend(vals);
            } else if body.arg_count == vals.len() + 1 {
                args.extend(vals);
            } else {
                args.push(agg(vals));
            }
            it.push_frame(st, inst, body, args, Some((cx.dest, cx.target)), cx.span)
        }
        ty::Param(_) | ty::Alias(..) => {
            if have_ref {
                let p = it.ptr(&f)?.clone();
                f = it.read(st, &p)?;
            }
            let k = it.key(st, &f)?;
            opaque_event(it, st, &format!("{k} called"), &vals, cx)
        }
        ty::Dynamic(..) => {
            let p = it.ptr(&f)?.clone();
            let Meta::Vt(ct) = p.meta.clone() else { return unsup("dyn Fn") };
            let mut q = (*p).clone();
            q.meta = Meta::None;
            let mut v = vec![Val::P(Rc::new(q))];
            v.extend(vals);
            let m = it.tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::FnMut, cx.span);
            let md = it.tcx.associated_items(m).in_definition_order().next().unwrap().def_id;
            call_fn_trait(it, st, ct, md, v, cx)
        }
        _ => unsup(format!("call of a value of type {t}")),
    }
}

fn fmt_arg<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, v: &Val<'tcx>) -> Option<(u32, u32)> {
    let Val::P(p) = v else { return None };
    if matches!(p.base, Base::Dang(_)) || matches!(p.meta, Meta::Len(_)) {
        return None;
    }
    match it.read(st, p) {
        Ok(Val::Fmtr(a, b)) => Some((a, b)),
        _ => None,
    }
}
pub fn formatter<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, v: &Val<'tcx>) -> R<(u32, u32)> {
    match fmt_arg(it, st, v) {
        Some(x) => Ok(x),
        None => unsup(format!("formatter expected, got {v:?}")),
    }
}

/// a call of code that belongs to the caller's side (generic parameter): an output event if a formatter
/// is passed, a pure symbolic value otherwise
fn opaque_event<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, name: &str, vals: &[Val<'tcx>], cx: Ctx<'tcx>) -> R<()> {
    let mut keys = vec![];
    let mut f = None;
    for v in vals {
        if let Some(x) = fmt_arg(it, st, v) {
            f = Some(x);
        } else {
            keys.push(it.key(st, v)?);
        }
    }
    let key = format!("{name}({})", keys.join(","));
    if let Some((sink, o)) = f {
        let opt = it.opts_tab[o as usize].clone();
        let site = it.site(st);
        let r = it.emit(st, sink, Ev::Opq(format!("{key} options={opt}").into()), site)?;
        return fin(it, st, &cx, r);
    }
    let v = it.sym(st, cx.ret_ty, &key)?;
    fin(it, st, &cx, v)
}

fn opaque_call<'tcx>(
    it: &mut It<'tcx>,
    st: &mut State<'tcx>,
    d: DefId,
    gargs: GenericArgsRef<'tcx>,
    vals: Vec<Val<'tcx>>,
    cx: Ctx<'tcx>,
) -> R<()> {
    let path = it.path(d);
    let name = it.tcx.item_name(d).to_string();
    let trait_path = match it.tcx.trait_of_assoc(d) {
        Some(t) => it.path(t),
        None => return unsup(format!("unresolved call {path}")),
    };
    // colour output on an unknown colour
    if &*trait_path == "colorz::WriteColor" && name.starts_with("fmt_") {
        let layer = match name.as_str() {
            n if n.contains("foreground") => 'f',
            n if n.contains("background") => 'b',
            n if n.contains("underline") => 'u',
            _ => return unsup(format!("unknown colour writer {name}")),
        };
        let args_only = name.ends_with("_args");
        let term = it.key(st, &vals[0])?;
        let (sink, _) = formatter(it, st, &vals[1])?;
        let site = it.site(st);
        let r = it.emit(st, sink, Ev::Color(layer, args_only, term.into()), site)?;
        return fin(it, st, &cx, r);
    }
    // the presence contract of optional colours (derived from all implementations)
    if &*trait_path == "colorz::OptionalColor" && name == "get" {
        let term = it.key(st, &vals[0])?;
        let v = it.sym(st, cx.ret_ty, &format!("get({term})"))?;
        if let (Some(rel), Val::En(e)) = (it.relation.clone(), &v) {
            // KIND atom of this opaque type
            let t = gargs.type_at(0);
            let tr = it.tcx.trait_of_assoc(d).unwrap();
            let kd = it
                .tcx
                .associated_items(tr)
                .in_definition_order()
                .find(|i| i.name().as_str() == "KIND")
                .map(|i| i.def_id);
            if let Some(kd) = kd {
                let kt = it.tcx.type_of(kd).instantiate_identity();
                let kt = it.tcx.normalize_erasing_regions(it.env, kt);
                let ga = it.tcx.mk_args(&[t.into()]);
                let kv = it.named_const(st, kd, ga, None, kt)?;
                if let Val::En(k) = kv {
                    let kind = it.konst(st, &k.disc)?;
                    let allowed: Vec<u128> = rel.iter().filter(|r| r.0 == kind).map(|r| r.1).collect();
                    match simp(&e.disc, st) {
                        Sc::C(x) => {
                            if !allowed.contains(&x) {
                                return Err(E::Dead);
                            }
                        }
                        Sc::Tab(a, tb) => {
                            let dm = st.dom(a);
                            let mut ok = [0; 4];
                            for i in elems(&dm) {
                                if allowed.contains(&tb[i]) {
                                    add(&mut ok, i);
                                }
                            }
                            if empty(&ok) {
                                return Err(E::Dead);
                            }
                            if ok != dm {
                                return Err(E::Need(a, vec![ok]));
                            }
                        }
                        _ => return unsup("presence"),
                    }
                }
            }
        }
        return fin(it, st, &cx, v);
    }
    // provided methods: use the default body (implementations are checked to agree with it)
    let has_default = it.tcx.defaultness(d).has_value();
    let any_fmt = vals.iter().any(|v| fmt_arg(it, st, v).is_some());
    if has_default && !any_fmt {
        let inst = Instance::new_raw(d, gargs);
        let body = it.body(inst, None)?;
        return it.push_frame(st, inst, body, vals, Some((cx.dest, cx.target)), cx.span);
    }
    let self_key = gargs.types().next().map(|t| t.to_string()).unwrap_or_default();
    let extra: Vec<String> = gargs.types().skip(1).map(|t| t.to_string()).collect();
    let tshort = trait_path.rsplit("::").next().unwrap_or("").to_string();
    let g = if extra.is_empty() { String::new() } else { format!("<{}>", extra.join(",")) };
    opaque_event(it, st, &format!("<{self_key} as {tshort}{g}>::{name}"), &vals, cx)
}

// ------------------------------------------------------------------------------------------------
pub fn bytes_of<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, v: &Val<'tcx>) -> R<Vec<Sc>> {
    let p = it.ptr(v)?.clone();
    let n = match &p.meta {
        Meta::Len(n) => it.konst(st, n)?,
        _ => return unsup("string without length"),
    };
    if n > 100_000 {
        return unsup("very long string");
    }
    let mut out = Vec::with_capacity(n as usize);
    for i in 0..n as u64 {
        let q = elem(&p, i)?;
        let b = it.read(st, &q)?;
        out.push(it.sc(st, &b)?);
    }
    Ok(out)
}
pub fn str_of<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, v: &Val<'tcx>) -> R<String> {
    let b = bytes_of(it, st, v)?;
    let mut s = vec![];
    for x in b {
        match x {
            Sc::C(c) => s.push(c as u8),
            _ => return unsup("string constant expected"),
        }
    }
    Ok(String::from_utf8_lossy(&s).into_owned())
}
fn const_len<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, v: &Val<'tcx>) -> R<Sc> {
    let p = it.ptr(v)?;
    match &p.meta {
        Meta::Len(n) => Ok(simp(n, st)),
        _ => unsup("length"),
    }
}
fn panic_message<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, vals: &[Val<'tcx>]) -> String {
    for v in vals {
        match v {
            Val::P(p) if matches!(p.meta, Meta::Len(_)) => {
                if let Ok(s) = str_of(it, st, v) {
                    return format!(": {s}");
                }
            }
            Val::Sp(s) => {
                if let Special::FmtArgs { tmpl, .. } = &**s {
                    return format!(
                        ": {}",
                        tmpl.iter()
                            .filter(|b| b.is_ascii_graphic() || **b == b' ')
                            .map(|b| *b as char)
                            .collect::<String>()
                    );
                }
            }
            _ => (),
        }
    }
    String::new()
}
fn en<'tcx>(disc: Sc, vars: Vec<(u32, Vec<Val<'tcx>>)>) -> Val<'tcx> {
    Val::En(Rc::new(EnumV { disc, vars }))
}
fn boolsc<'tcx>(s: Sc) -> Val<'tcx> {
    Val::S(s)
}

/// the special value (environment text) behind a value or any chain of references
fn env_of<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, v: &Val<'tcx>) -> Option<Rc<str>> {
    match v {
        Val::Sp(s) => match &**s {
            Special::Env(n) => Some(n.clone()),
            _ => None,
        },
        Val::P(p) if !matches!(p.base, Base::Dang(_)) => {
            if matches!(p.meta, Meta::Len(_)) {
                return None;
            }
            let x = it.read(st, p).ok()?;
            env_of(it, st, &x)
        }
        Val::Agg(a) if a.len() == 1 => env_of(it, st, &a[0]),
        _ => None,
    }
}
/// a literal string behind any chain of references
fn lit_of<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, v: &Val<'tcx>) -> Option<String> {
    match v {
        Val::P(p) if matches!(p.meta, Meta::Len(_)) => str_of(it, st, v).ok(),
        Val::P(p) if !matches!(p.base, Base::Dang(_)) => {
            let x = it.read(st, p).ok()?;
            if let Val::Agg(a) = &x {
                let b: Option<Vec<u8>> =
                    a.iter().map(|x| if let Val::S(Sc::C(c)) = x { Some(*c as u8) } else { None }).collect();
                return b.map(|b| String::from_utf8_lossy(&b).into_owned());
            }
            lit_of(it, st, &x)
        }
        _ => None,
    }
}

pub const ENV_CLASSES: &[&str] = &[
    "unset", "\"\"", "\"0\"", "\"1\"", "\"00\"", "\"false\"", "\"no\"", "\"off\"", "\"true\"", "\"2\"", "\"3\"",
    "\" 0\"", "\"never\"", "\"always\"", "other text", "non-unicode",
];
/// the variable as it is at present
pub fn env_now(st: &State, name: &str) -> String {
    match st.env_gen {
        0 => name.to_string(),
        k => format!("{name} (after change {k})"),
    }
}
pub fn env_atom(name: &str) -> Atom {
    atom(
        &format!("environment variable {name}"),
        ENV_CLASSES.len(),
        Labels::Names(Rc::new(ENV_CLASSES.iter().map(|x| x.to_string()).collect())),
    )
}
fn env_test(name: &str, f: impl Fn(Option<&str>, &str) -> u128) -> Sc {
    let a = env_atom(name);
    tab(
        a,
        ENV_CLASSES
            .iter()
            .map(|c| {
                let lit = c.strip_prefix('"').and_then(|c| c.strip_suffix('"'));
                f(lit, c)
            })
            .collect(),
    )
}
fn env_eq<'tcx>(st: &State<'tcx>, name: &str, lit: &str, ci: bool) -> R<Sc> {
    let known = ENV_CLASSES.iter().any(|c| {
        c.strip_prefix('"').and_then(|c| c.strip_suffix('"')).map_or(false, |c| {
            if ci {
                c.eq_ignore_ascii_case(lit)
            } else {
                c == lit
            }
        })
    });
    if known && !ci {
        return Ok(env_test(name, |l, _| (l == Some(lit)) as u128));
    }
    // "other text" may or may not be equal
    let a = env_atom(name);
    let other = ENV_CLASSES.iter().position(|c| *c == "other text").unwrap();
    let d = st.dom(a);
    if has(&d, other) && card(&d) > 1 {
        let mut o = [0; 4];
        add(&mut o, other);
        return Err(E::Need(a, vec![minus(&d, &o), o]));
    }
    if has(&d, other) {
        let b = atom(&format!("environment variable {name} is {lit:?}"), 2, Labels::Bool);
        return Ok(tab(b, vec![0, 1]));
    }
    Ok(env_test(name, |l, _| l.map_or(false, |l| if ci { l.eq_ignore_ascii_case(lit) } else { l == lit }) as u128))
}

fn ascii_all<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, b: &[Sc]) -> R<bool> {
    for x in b {
        let s = mk(Op::Lt, 8, false, x.clone(), Sc::C(0x80), st);
        if !it.decide(st, &s)? {
            return Ok(false);
        }
    }
    Ok(true)
}

/// decimal digits of an unsigned scalar; the number of digits is decided
fn decimal<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, s: &Sc, w: u32) -> R<Vec<Sc>> {
    let mut n = 1;
    let mut p: u128 = 10;
    loop {
        if p > mask(w) {
            break;
        }
        let c = mk(Op::Le, w, false, Sc::C(p), s.clone(), st);
        if it.decide(st, &c)? {
            n += 1;
            p = match p.checked_mul(10) {
                Some(x) => x,
                None => break,
            };
        } else {
            break;
        }
    }
    let mut out = vec![];
    for k in (0..n).rev() {
        let q = mk(Op::Div, w, false, s.clone(), Sc::C(10u128.pow(k)), st);
        let r = mk(Op::Rem, w, false, q, Sc::C(10), st);
        let r = mk(Op::Add, w, false, r, Sc::C(48), st);
        let r = mk(Op::Cast, w, false, r, Sc::C(8), st);
        out.push(simp(&r, st));
    }
    Ok(out)
}

/// models of library functions, by path
fn model<'tcx>(
    it: &mut It<'tcx>,
    st: &mut State<'tcx>,
    path: &str,
    d: DefId,
    gargs: GenericArgsRef<'tcx>,
    vals: &[Val<'tcx>],
    cx: &Ctx<'tcx>,
) -> R<Option<Done<'tcx>>> {
    if path.starts_with("colorz::") || path.starts_with("<colorz::") || path.starts_with("colorz_harness::") {
        return Ok(None);
    }
    let v = |x: Val<'tcx>| Ok(Some(Done::Val(x)));
    if path.starts_with("std::sync::") {
        // operations of the standard library that module `rt` of the rules spells out
        let spelled = match path {
            "std::sync::once_lock::OnceLock::get_or_init" => "once_lock_get_or_init",
            "std::sync::once_lock::OnceLock::get" => "once_lock_get",
            "std::sync::once_lock::OnceLock::set" => "once_lock_set",
            "std::sync::once::Once::call_once" => "once_call_once",
            "std::sync::once::Once::is_completed" => "once_is_completed",
            "std::sync::lazy_lock::LazyLock::force" => "lazy_lock_force",
            "std::sync::once_lock::OnceLock::new" | "std::sync::once::Once::new" => return v(en(Sc::C(0), vec![(0, vec![])])),
            "std::sync::lazy_lock::LazyLock::new" => return v(agg(vec![en(Sc::C(0), vec![(0, vec![])]), vals[0].clone()])),
            _ => "",
        };
        if !spelled.is_empty() {
            let Some(f) = it.rule_fn(&format!("colorz_harness::rt::{spelled}")) else { return unsup(path) };
            let inst = Instance::new_raw(f, gargs);
            let body = it.body(inst, None)?;
            it.push_frame(st, inst, body, vals.to_vec(), Some((cx.dest.clone(), cx.target)), cx.span)?;
            return Ok(Some(Done::Did));
        }
        if path.starts_with("std::sync::once") || path.starts_with("std::sync::lazy_lock") {
            let inherent = path.split("::").nth(3).is_some_and(|x| matches!(x, "OnceLock" | "Once" | "LazyLock"));
            if inherent {
                return unsup(path);
            }
        }
    }
    // comparisons with environment text
    if path.ends_with("::eq") || path.ends_with("::ne") || path.ends_with("::eq_ignore_ascii_case") {
        if vals.len() == 2 {
            let e0 = env_of(it, st, &vals[0]);
            let e1 = env_of(it, st, &vals[1]);
            let (e, o) = match (e0, e1) {
                (Some(e), None) => (Some(e), &vals[1]),
                (None, Some(e)) => (Some(e), &vals[0]),
                _ => (None, &vals[0]),
            };
            if let Some(e) = e {
                let Some(l) = lit_of(it, st, o) else { return unsup("environment text compared with unknown text") };
                let r = env_eq(st, &e, &l, path.ends_with("case"))?;
                let r = if path.ends_with("::ne") { mk(Op::Xor, 1, false, r, Sc::C(1), st) } else { r };
                return v(boolsc(r));
            }
        }
    }
    if !vals.is_empty() && (path.starts_with("std::ffi") || path.starts_with("alloc::string") || path.contains("OsStr") || path.starts_with("str::") || path.starts_with("core::str") || path.contains("String") || path.contains("::AsRef::as_ref") || path.contains("::Deref::deref")|| path.contains("::Borrow::borrow")) {
        if let Some(e) = env_of(it, st, &vals[0]) {
            let name = it.tcx.item_name(d).to_string();
            let as_ref = || match &vals[0] {
                p @ Val::P(_) => Some(p.clone()),
                _ => None,
            };
            match name.as_str() {
                "as_os_str" | "deref" | "as_ref" | "as_str" | "borrow" | "as_encoded_bytes" | "as_bytes" | "to_os_string" | "into_string_lossy" | "to_string_lossy" => {
                    return v(as_ref().unwrap_or(vals[0].clone()))
                }
                "is_empty" => return v(boolsc(env_test(&e, |l, _| (l == Some("")) as u128))),
                "to_str" => {
                    let d = env_test(&e, |_, c| (c != "non-unicode") as u128);
                    return v(en(d, vec![(0, vec![]), (1, vec![as_ref().unwrap_or(vals[0].clone())])]));
                }
                "into_string" => {
                    let d = env_test(&e, |_, c| (c == "non-unicode") as u128);
                    return v(en(d, vec![(0, vec![vals[0].clone()]), (1, vec![vals[0].clone()])]));
                }
                "eq" | "ne" => (),
                "clone" | "to_owned" => return v(Val::Sp(Rc::new(Special::Env(e)))),
                n => return unsup(format!("operation {n} on environment text")),
            }
        }
    }
    // alignment is an optimisation only: these may always report that nothing is aligned
    match path.rsplit("::").next().unwrap_or("") {
        "align_offset" if path.starts_with("*") || path.starts_with("core::ptr") => return v(con(mask(64))),
        "align_to" if path.starts_with("slice::") || path.starts_with("core::slice") || path.starts_with("[") => {
            if let Val::P(p) = &vals[0] {
                let mut q = (**p).clone();
                q.meta = Meta::Len(Sc::C(0));
                let e = Val::P(Rc::new(q));
                return v(agg(vec![vals[0].clone(), e.clone(), e]));
            }
        }
        _ => (),
    }
    match path {
        // ---------------------------------------------------------------- formatter
        "core::fmt::Formatter::write_str" | "<core::fmt::Formatter as core::fmt::Write>::write_str" => {
            let (sink, _) = formatter(it, st, &vals[0])?;
            let b = bytes_of(it, st, &vals[1])?;
            let site = it.site(st);
            let r = if b.is_empty() && !st.sinks[sink as usize].failing {
                fmt_ok()
            } else {
                it.emit(st, sink, Ev::Str(Rc::new(b)), site)?
            };
            v(r)
        }
        "core::fmt::Formatter::write_char" | "<core::fmt::Formatter as core::fmt::Write>::write_char" => {
            let (sink, _) = formatter(it, st, &vals[0])?;
            let c = it.sc(st, &vals[1])?;
            let lt = mk(Op::Lt, 32, false, c.clone(), Sc::C(0x80), st);
            if !it.decide(st, &lt)? {
                return unsup("non-ASCII character written");
            }
            let b = mk(Op::Cast, 32, false, c, Sc::C(8), st);
            let site = it.site(st);
            v(it.emit(st, sink, Ev::Str(Rc::new(vec![b])), site)?)
        }
        "core::fmt::Formatter::pad" => {
            let (sink, o) = formatter(it, st, &vals[0])?;
            let b = bytes_of(it, st, &vals[1])?;
            let site = it.site(st);
            let ev = if it.opts_tab[o as usize] == "default" {
                if b.is_empty() && !st.sinks[sink as usize].failing {
                    return v(fmt_ok());
                }
                Ev::Str(Rc::new(b))
            } else {
                Ev::Pad(o, Rc::new(b))
            };
            v(it.emit(st, sink, ev, site)?)
        }
        "core::fmt::Formatter::write_fmt" | "<core::fmt::Formatter as core::fmt::Write>::write_fmt" | "core::fmt::write" => {
            let (sink, _) = formatter(it, st, &vals[0])?;
            native_fmt(it, st, &vals[1], sink, cx)?;
            Ok(Some(Done::Did))
        }
        "<core::fmt::Arguments as core::fmt::Display>::fmt" | "<core::fmt::Arguments as core::fmt::Debug>::fmt" => {
            let (sink, _) = formatter(it, st, &vals[1])?;
            let p = it.ptr(&vals[0])?.clone();
            let a = it.read(st, &p)?;
            native_fmt(it, st, &a, sink, cx)?;
            Ok(Some(Done::Did))
        }
        "core::fmt::Formatter::alternate"
        | "core::fmt::Formatter::sign_plus"
        | "core::fmt::Formatter::sign_minus"
        | "core::fmt::Formatter::sign_aware_zero_pad" => {
            let (_, o) = formatter(it, st, &vals[0])?;
            let n = it.opts_tab[o as usize].clone();
            if n == "default" {
                return v(con(0));
            }
            let k = path.rsplit("::").next().unwrap();
            let t = it.tcx.types.bool;
            v(it.sym(st, t, &format!("option {k} of {n}"))?)
        }
        "core::fmt::Formatter::width" | "core::fmt::Formatter::precision" => {
            let (_, o) = formatter(it, st, &vals[0])?;
            let n = it.opts_tab[o as usize].clone();
            if n == "default" {
                return v(none());
            }
            let k = path.rsplit("::").next().unwrap();
            let a = atom(&format!("option {k} of {n} given"), 2, Labels::Bool);
            let w = it.fresh_unk(0, 65535);
            v(en(tab(a, vec![0, 1]), vec![(0, vec![]), (1, vec![Val::S(w)])]))
        }
        "core::fmt::Formatter::fill" => v(con(32)),
        "core::fmt::Formatter::debug_set" | "core::fmt::Formatter::debug_list" | "core::fmt::Formatter::debug_map" => {
            let k = path.rsplit("::").next().unwrap();
            builder(it, st, k, &vals[0], None)
        }
        "core::fmt::Formatter::debug_struct" | "core::fmt::Formatter::debug_tuple" => {
            let k = path.rsplit("::").next().unwrap();
            let n = str_of(it, st, &vals[1])?;
            builder(it, st, k, &vals[0], Some(n))
        }
        "core::fmt::builders::DebugSet::entry"
        | "core::fmt::builders::DebugList::entry"
        | "core::fmt::builders::DebugTuple::field" => entry(it, st, &vals[0], None, &vals[1], cx),
        "core::fmt::builders::DebugStruct::field" => {
            let n = str_of(it, st, &vals[1])?;
            entry(it, st, &vals[0], Some(n), &vals[2], cx)
        }
        "core::fmt::builders::DebugSet::finish"
        | "core::fmt::builders::DebugList::finish"
        | "core::fmt::builders::DebugTuple::finish"
        | "core::fmt::builders::DebugStruct::finish"
        | "core::fmt::builders::DebugStruct::finish_non_exhaustive"
        | "core::fmt::builders::DebugSet::finish_non_exhaustive" => {
            let p = it.ptr(&vals[0])?.clone();
            let b = it.read(st, &p)?;
            let Val::Sp(s) = &b else { return unsup("builder") };
            let Special::Builder { fmt, failed, kind, .. } = &**s else { return unsup("builder") };
            if *failed {
                return v(fmt_err());
            }
            let (sink, _) = formatter(it, st, fmt)?;
            let site = it.site(st);
            let k = path.rsplit("::").next().unwrap();
            v(it.emit(st, sink, Ev::Opq(format!("{kind} {k}").into()), site)?)
        }
        // ---------------------------------------------------------------- format_args
        "core::fmt::rt::Argument::new_display"
        | "core::fmt::rt::Argument::new_debug"
        | "core::fmt::rt::Argument::new_lower_hex"
        | "core::fmt::rt::Argument::new_upper_hex"
        | "core::fmt::rt::Argument::new_octal"
        | "core::fmt::rt::Argument::new_binary"
        | "core::fmt::rt::Argument::new_lower_exp"
        | "core::fmt::rt::Argument::new_upper_exp"
        | "core::fmt::rt::Argument::new_pointer" => {
            let tr = match path.rsplit("new_").next().unwrap() {
                "display" => "core::fmt::Display",
                "debug" => "core::fmt::Debug",
                "lower_hex" => "core::fmt::LowerHex",
                "upper_hex" => "core::fmt::UpperHex",
                "octal" => "core::fmt::Octal",
                "binary" => "core::fmt::Binary",
                "lower_exp" => "core::fmt::LowerExp",
                "upper_exp" => "core::fmt::UpperExp",
                _ => "core::fmt::Pointer",
            };
            let t = gargs.types().next().unwrap();
            v(Val::Sp(Rc::new(Special::FmtArg { val: vals[0].clone(), ty: t, tr: tr.into() })))
        }
        "core::fmt::Arguments::new" | "core::fmt::rt::<impl core::fmt::Arguments>::new" => {
            // (template, args): template is &[u8; N], args is &[Argument; M]
            let tp = it.ptr(&vals[0])?.clone();
            let t = it.read(st, &tp)?;
            let Val::Agg(t) = &t else { return unsup("format template") };
            let mut b = vec![];
            for x in t.iter() {
                b.push(it.int(st, x)? as u8);
            }
            let ap = it.ptr(&vals[1])?.clone();
            let a = it.read(st, &ap)?;
            let Val::Agg(a) = &a else { return unsup("format arguments") };
            v(Val::Sp(Rc::new(Special::FmtArgs { tmpl: b.into(), args: a.to_vec() })))
        }
        "core::fmt::Arguments::from_str" | "core::fmt::Arguments::from_str_nonconst" => {
            let s = bytes_of(it, st, &vals[0])?;
            let mut b = vec![];
            for x in s {
                match x {
                    Sc::C(c) => b.push(c as u8),
                    _ => return unsup("format string"),
                }
            }
            let mut t = vec![];
            for c in b.chunks(127) {
                t.push(c.len() as u8);
                t.extend_from_slice(c);
            }
            t.push(0);
            v(Val::Sp(Rc::new(Special::FmtArgs { tmpl: t.into(), args: vec![] })))
        }
        // ---------------------------------------------------------------- strings
        "core::str::converts::from_utf8" | "str::from_utf8" => {
            // unknown bytes: validity is only decided when all bytes are ASCII
            let n = const_len(it, st, &vals[0])?;
            if !matches!(n, Sc::C(_)) {
                it.konst(st, &n)?;
            }
            let b = bytes_of(it, st, &vals[0])?;
            if ascii_all(it, st, &b)? {
                v(en(Sc::C(0), vec![(0, vec![vals[0].clone()])]))
            } else {
                let all: Option<Vec<u8>> = b.iter().map(|x| if let Sc::C(c) = x { Some(*c as u8) } else { None }).collect();
                match all {
                    Some(b) => {
                        if std::str::from_utf8(&b).is_ok() {
                            v(en(Sc::C(0), vec![(0, vec![vals[0].clone()])]))
                        } else {
                            v(en(Sc::C(1), vec![(1, vec![Val::Uninit])]))
                        }
                    }
                    None => unsup("UTF-8 validity of unknown bytes"),
                }
            }
        }
        "core::str::converts::from_utf8_unchecked" | "str::from_utf8_unchecked" => v(vals[0].clone()),
        "core::slice::ascii::<impl [u8]>::is_ascii" | "[u8]::is_ascii" | "str::is_ascii" => {
            let b = bytes_of(it, st, &vals[0])?;
            let r = ascii_all(it, st, &b)?;
            v(con(r as u128))
        }
        "core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case" | "[u8]::eq_ignore_ascii_case" | "str::eq_ignore_ascii_case" => {
            let x = const_len(it, st, &vals[0])?;
            let y = const_len(it, st, &vals[1])?;
            let e = mk(Op::Eq, 64, false, x, y, st);
            if !it.decide(st, &e)? {
                return v(con(0));
            }
            let a = bytes_of(it, st, &vals[0])?;
            let b = bytes_of(it, st, &vals[1])?;
            for (x, y) in a.iter().zip(&b) {
                let l = lower(st, x);
                let m = lower(st, y);
                let c = mk(Op::Eq, 8, false, l, m, st);
                if !it.decide(st, &c)? {
                    return v(con(0));
                }
            }
            v(con(1))
        }
        "u8::to_ascii_lowercase" | "core::num::<impl u8>::to_ascii_lowercase" => {
            let p = it.ptr(&vals[0])?.clone();
            let x = it.read(st, &p)?;
            let s = it.sc(st, &x)?;
            v(Val::S(lower(st, &s)))
        }
        // ---------------------------------------------------------------- operating system
        "std::env::var_os" | "std::env::var" => {
            let Some(n) = lit_of(it, st, &vals[0]) else { return unsup("environment variable name") };
            note_global(it, st, &format!("env:{n}"));
            let n = env_now(st, &n);
            let sp = Val::Sp(Rc::new(Special::Env(n.as_str().into())));
            if path == "std::env::var_os" {
                let dsc = env_test(&n, |_, c| (c != "unset") as u128);
                v(en(dsc, vec![(0, vec![]), (1, vec![sp])]))
            } else {
                let dsc = env_test(&n, |_, c| matches!(c, "unset" | "non-unicode") as u128);
                let inner = env_test(&n, |_, c| (c == "non-unicode") as u128);
                v(en(dsc, vec![(0, vec![sp.clone()]), (1, vec![en(inner, vec![(0, vec![]), (1, vec![sp])])])]))
            }
        }
        "std::io::stdio::stdout" => v(Val::Opq("stdout".into())),
        "std::io::stdio::stderr" => v(Val::Opq("stderr".into())),
        "std::io::stdio::stdin" => v(Val::Opq("stdin".into())),
        "std::io::stdio::Stdout::lock" | "std::io::stdio::Stderr::lock" => {
            let p = it.ptr(&vals[0])?.clone();
            v(it.read(st, &p)?)
        }
        _ if path.ends_with(" as std::io::stdio::IsTerminal>::is_terminal") || path == "std::io::stdio::IsTerminal::is_terminal" => {
            let s = it.key(st, &vals[0])?;
            let n = st.probes.iter().filter(|p| p.2 && &*p.0 == s.as_str()).count();
            let a = atom(&format!("probe of {s} #{n} is a terminal"), 2, Labels::Bool);
            let r = tab(a, vec![0, 1]);
            st.probes.push((s.as_str().into(), vec![r.clone()], true));
            note_global(it, st, &format!("probe:{s}"));
            v(Val::S(r))
        }
        "supports_color::on" | "supports_color::on_cached" => {
            let Val::En(e) = &vals[0] else { return unsup("probe stream") };
            let k = it.konst(st, &e.disc)?;
            // supports_color::Stream { Stdout, Stderr }
            let ty::Adt(adt, _) = it.tcx.fn_sig(d).instantiate_identity().skip_norm_wip().inputs().skip_binder()[0].kind() else {
                return unsup("probe stream");
            };
            let s = adt.variants()[rustc_abi::VariantIdx::from_u32(k as u32)].name.to_string().to_lowercase();
            let n = st.probes.iter().filter(|p| p.2 && &*p.0 == s.as_str()).count();
            let r = it.sym(st, cx.ret_ty, &format!("probe of {s} #{n}"))?;
            let Val::En(e) = &r else { return unsup("probe result") };
            // Option<ColorLevel { level, has_basic, has_256, has_16m }>
            let mut f = vec![e.disc.clone()];
            let Some((_, fs)) = e.vars.iter().find(|x| x.0 == 1) else { return unsup("probe result") };
            let level = cx.ret_ty;
            let ty::Adt(_, oa) = level.kind() else { return unsup("probe") };
            let lt = oa.type_at(0);
            let ty::Adt(ladt, _) = lt.kind() else { return unsup("probe") };
            let Val::Agg(fields) = &fs[0] else { return unsup("probe") };
            for want in ["has_basic", "has_256", "has_16m"] {
                let i = ladt.non_enum_variant().fields.iter().position(|f| f.name.as_str() == want);
                let Some(i) = i else { return unsup("probe fields") };
                let s = it.sc(st, &fields[i])?;
                f.push(s);
            }
            st.probes.push((s.as_str().into(), f, true));
            note_global(it, st, &format!("probe:{s}"));
            v(r)
        }
        "core::sync::atomic::fence" | "core::sync::atomic::compiler_fence" => v(unit()),
        "std::thread::functions::panicking" | "std::panicking::panicking" | "std::thread::panicking" => v(con(0)),
        _ if path.starts_with("std::sys::sync::mutex::") || path.starts_with("std::sys::sync::rwlock::") => {
            // a lock is taken: what it guards is what some thread left there; guards are not tracked
            let name = path.rsplit("::").next().unwrap_or("");
            match name {
                "lock" | "read" | "write" | "try_lock" | "try_read" | "try_write" => {
                    let p = it.ptr(&vals[0])?.clone();
                    if interrupted(it, st, &p)? {
                        run_other(it, st, cx, false)?;
                        return Ok(Some(Done::Did));
                    }
                    if let (Some(d), true) = (static_of(&p), st.conc) {
                        let mut data = (*p).clone();
                        data.path.pop();
                        data.path.push(PE::F(2));
                        let at: Vec<Vec<PE>> = it
                            .stores
                            .values()
                            .filter_map(|l| l.first())
                            .filter(|s| s.of == d && s.path.starts_with(&data.path))
                            .map(|s| s.path.clone())
                            .collect();
                        let mut s2 = st.clone();
                        for path in at {
                            let q = PtrV { base: p.base.clone(), path, meta: Meta::None };
                            atomic_load(it, &mut s2, &q)?;
                        }
                        *st = s2;
                    }
                    v(if name.starts_with("try") { con(1) } else { unit() })
                }
                "unlock" | "read_unlock" | "write_unlock" => v(unit()),
                _ => unsup(path),
            }
        }
        "*const T::is_null" | "*mut T::is_null" => {
            let p = it.ptr(&vals[0])?;
            v(con(matches!(p.base, Base::Dang(0)) as u128))
        }
        "core::panic::location::Location::caller" => v(Val::Opq("location".into())),
        "core::hint::black_box" => v(vals[0].clone()),
        "core::mem::drop" => v(unit()),
        _ => {
            if path == "core::fmt::Formatter::debug_c_like_enum_write_str" {
                // write_str(names[start..].split(' ').next())
                let (sink, _) = formatter(it, st, &vals[0])?;
                let names = str_of(it, st, &vals[1])?;
                let start = it.int(st, &vals[2])? as usize;
                let Some(rest) = names.get(start..) else { return unsup("enum name out of range") };
                let w = rest.split(' ').next().unwrap_or("");
                let site = it.site(st);
                let w = w.bytes().map(|x| Sc::C(x as u128)).collect();
                return v(it.emit(st, sink, Ev::Str(Rc::new(w)), site)?);
            }
            if let Some(k) = path.strip_prefix("core::fmt::Formatter::debug_") {
                // derived Debug helpers: debug_{struct,tuple}_field{N,s}_finish
                let (sink, _) = formatter(it, st, &vals[0])?;
                let name = str_of(it, st, &vals[1])?;
                let mut ps = vec![Piece::Ev(Ev::Opq(format!("debug_{k} {name}").into()))];
                let dyn_fields: Vec<Val<'tcx>> = if k.contains("fields_finish") {
                    return unsup("derived Debug with many fields");
                } else {
                    vals[2..].to_vec()
                };
                for x in dyn_fields {
                    if let Val::P(p) = &x {
                        match p.meta.clone() {
                            Meta::Len(_) => {
                                let n = str_of(it, st, &x)?;
                                ps.push(Piece::Ev(Ev::Opq(format!("field {n}").into())));
                            }
                            Meta::Vt(t) => {
                                let mut q = (**p).clone();
                                q.meta = Meta::None;
                                ps.push(Piece::Arg { val: Val::P(Rc::new(q)), ty: t, tr: "core::fmt::Debug".into(), opts: 0 });
                            }
                            _ => return unsup("derived Debug field"),
                        }
                    }
                }
                native_pieces(it, st, ps, sink, cx)?;
                return Ok(Some(Done::Did));
            }
            // integer formatting
            if let Some(rest) = path.strip_prefix('<') {
                if let Some((t, tr)) = rest.split_once(" as core::fmt::") {
                    let t = t.trim_start_matches('&');
                    let w = match t {
                        "u8" => 8,
                        "u16" => 16,
                        "u32" => 32,
                        "u64" | "usize" => 64,
                        _ => 0,
                    };
                    if w > 0 && tr == "Display>::fmt" {
                        let p = it.ptr(&vals[0])?.clone();
                        let x = it.read(st, &p)?;
                        let s = it.sc(st, &x)?;
                        let b = decimal(it, st, &s, w)?;
                        let (sink, o) = formatter(it, st, &vals[1])?;
                        let site = it.site(st);
                        let ev = if it.opts_tab[o as usize] == "default" {
                            Ev::Str(Rc::new(b))
                        } else {
                            Ev::Pad(o, Rc::new(b))
                        };
                        return v(it.emit(st, sink, ev, site)?);
                    }
                    if matches!(tr, "Display>::fmt" | "Debug>::fmt" | "LowerHex>::fmt" | "UpperHex>::fmt" | "Octal>::fmt" | "Binary>::fmt" | "LowerExp>::fmt" | "UpperExp>::fmt" | "Pointer>::fmt")
                        && (matches!(t, "u8" | "u16" | "u32" | "u64" | "usize" | "u128" | "i8" | "i16" | "i32" | "i64" | "isize" | "i128" | "bool" | "char" | "()" | "f32" | "f64")
                            || (t == "str" && tr == "Debug>::fmt")
                            || tr == "Pointer>::fmt")
                    {
                        let key = it.key(st, &vals[0])?;
                        let (sink, o) = formatter(it, st, &vals[1])?;
                        let site = it.site(st);
                        let o = it.opts_tab[o as usize].clone();
                        let ev = Ev::Opq(format!("<{t} as {}({key}) options={o}", tr.trim_end_matches("::fmt")).into());
                        return v(it.emit(st, sink, ev, site)?);
                    }
                }
            }
            Ok(None)
        }
    }
}

fn lower<'tcx>(st: &State<'tcx>, x: &Sc) -> Sc {
    let f = |c: u128| if (65..=90).contains(&c) { c | 32 } else { c };
    match x {
        Sc::C(c) => Sc::C(f(*c)),
        Sc::Tab(a, t) => tab(*a, t.iter().map(|c| f(*c)).collect()),
        o => {
            let ge = mk(Op::Le, 8, false, Sc::C(65), o.clone(), st);
            let le = mk(Op::Le, 8, false, o.clone(), Sc::C(90), st);
            let up = mk(Op::And, 1, false, ge, le, st);
            let up = mk(Op::Cast, 1, false, up, Sc::C(8), st);
            let up = mk(Op::Shl, 8, false, up, Sc::C(5), st);
            mk(Op::Or, 8, false, o.clone(), up, st)
        }
    }
}

pub fn note_global<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, what: &str) {
    let site = it.site(st);
    st.globals_used.push((what.into(), site));
}

fn builder<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, kind: &str, f: &Val<'tcx>, name: Option<String>) -> R<Option<Done<'tcx>>> {
    let (sink, _) = formatter(it, st, f)?;
    let site = it.site(st);
    let t = format!("{kind} {}", name.unwrap_or_default());
    let r = it.emit(st, sink, Ev::Opq(t.into()), site)?;
    let failed = matches!(&r, Val::En(e) if e.disc == Sc::C(1));
    Ok(Some(Done::Val(Val::Sp(Rc::new(Special::Builder { kind: kind.into(), fmt: f.clone(), failed, n: 0 })))))
}
/// one entry of a debug builder; returns the builder reference
fn entry<'tcx>(
    it: &mut It<'tcx>,
    st: &mut State<'tcx>,
    b: &Val<'tcx>,
    name: Option<String>,
    val: &Val<'tcx>,
    cx: &Ctx<'tcx>,
) -> R<Option<Done<'tcx>>> {
    let p = it.ptr(b)?.clone();
    let x = it.read(st, &p)?;
    let Val::Sp(s) = &x else { return unsup("builder") };
    let Special::Builder { fmt, failed, .. } = &**s else { return unsup("builder") };
    if *failed {
        return Ok(Some(Done::Val(b.clone())));
    }
    let (sink, o) = formatter(it, st, fmt)?;
    if st.sinks[sink as usize].failing {
        return unsup("debug builder on a failing writer");
    }
    let q = it.ptr(val)?.clone();
    let Meta::Vt(t) = q.meta.clone() else { return unsup("debug entry") };
    let mut r = (*q).clone();
    r.meta = Meta::None;
    let ps = vec![
        Piece::Ev(Ev::Opq(format!("entry {}", name.unwrap_or_default()).into())),
        Piece::Arg { val: Val::P(Rc::new(r)), ty: t, tr: "core::fmt::Debug".into(), opts: o },
    ];
    // the result goes to a scratch cell; the builder reference is the call's value
    let scratch = st.alloc(Val::Uninit);
    it.write(st, &cx.dest, b.clone())?;
    let c2 = Ctx { dest: scratch, target: cx.target, ret_ty: cx.ret_ty, span: cx.span };
    native_pieces(it, st, ps, sink, &c2)?;
    Ok(Some(Done::Did))
}

fn native_fmt<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, a: &Val<'tcx>, sink: u32, cx: &Ctx<'tcx>) -> R<()> {
    let Val::Sp(s) = a else { return unsup(format!("format arguments {a:?}")) };
    let Special::FmtArgs { tmpl, args } = &**s else { return unsup("format arguments") };
    let mut ps = vec![];
    let mut i = 0;
    let mut next = 0usize;
    let lit = |b: &[u8]| Piece::Lit(Rc::new(b.iter().map(|x| Sc::C(*x as u128)).collect()));
    while i < tmpl.len() {
        let b = tmpl[i];
        i += 1;
        if b == 0 {
            break;
        } else if b < 0x80 {
            ps.push(lit(&tmpl[i..i + b as usize]));
            i += b as usize;
        } else if b == 0x80 {
            let n = u16::from_le_bytes([tmpl[i], tmpl[i + 1]]) as usize;
            i += 2;
            ps.push(lit(&tmpl[i..i + n]));
            i += n;
        } else {
            let mut o = String::new();
            if b & 1 != 0 {
                o.push_str(&format!("flags={:02x?} ", &tmpl[i..i + 4]));
                i += 4;
            }
            if b & 2 != 0 {
                o.push_str(&format!("width={:02x?} ", &tmpl[i..i + 2]));
                i += 2;
            }
            if b & 4 != 0 {
                o.push_str(&format!("precision={:02x?} ", &tmpl[i..i + 2]));
                i += 2;
            }
            if b & 8 != 0 {
                next = u16::from_le_bytes([tmpl[i], tmpl[i + 1]]) as usize;
                i += 2;
            }
            if b & 0x30 != 0 {
                return unsup("format width taken from an argument");
            }
            let opts = if o.is_empty() {
                1
            } else {
                match it.opts_tab.iter().position(|x| *x == o) {
                    Some(k) => k as u32,
                    None => {
                        it.opts_tab.push(o);
                        it.opts_tab.len() as u32 - 1
                    }
                }
            };
            let Some(Val::Sp(a)) = args.get(next) else { return unsup("format argument index") };
            next += 1;
            let Special::FmtArg { val, ty, tr } = &**a else { return unsup("format argument") };
            ps.push(Piece::Arg { val: val.clone(), ty: *ty, tr: tr.clone(), opts });
        }
    }
    native_pieces(it, st, ps, sink, cx)
}
fn native_pieces<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, ps: Vec<Piece<'tcx>>, sink: u32, cx: &Ctx<'tcx>) -> R<()> {
    let _ = it;
    let slot = st.objs.len() as u32;
    let (body, inst) = {
        let f = st.frames.last().unwrap();
        (f.body.clone(), f.inst)
    };
    st.objs.push(Rc::new(fmt_ok()));
    st.frames.push(Frame {
        fails: vec![],
        body,
        inst,
        bb: rustc_middle::mir::START_BLOCK,
        stmt: 0,
        base: slot,
        ret: Some((cx.dest.clone(), cx.target)),
        native: Some(Rc::new(NativeState { pieces: Rc::new(ps), i: 0, sink, slot })),
        site_span: cx.span,
    });
    Ok(())
}

// ------------------------------------------------------------------------------------------------
fn raw_eq_vals<'tcx>(it: &mut It<'tcx>, st: &State<'tcx>, a: &Val<'tcx>, b: &Val<'tcx>) -> R<Sc> {
    match (a, b) {
        (Val::S(x), Val::S(y)) => Ok(mk(Op::Eq, 64, false, simp(x, st), simp(y, st), st)),
        (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
            let mut r = Sc::C(1);
            for (p, q) in x.iter().zip(y.iter()) {
                let e = raw_eq_vals(it, st, p, q)?;
                r = mk(Op::And, 1, false, r, e, st);
            }
            Ok(r)
        }
        _ => unsup("raw equality"),
    }
}

/// the static object a pointer refers to
fn static_of<'tcx>(p: &PtrV<'tcx>) -> Option<DefId> {
    match p.base {
        Base::Static(d) => Some(d),
        _ => None,
    }
}

/// the name of an atomic: its static, and where in it
pub fn cell_name<'tcx>(it: &mut It<'tcx>, d: DefId, p: &PtrV<'tcx>) -> String {
    let mut name = it.path(d).to_string();
    for e in &p.path {
        name.push_str(&match e {
            PE::I(i) => format!("[{i}]"),
            PE::F(i) => format!(".{i}"),
            PE::D(i) => format!("#{i}"),
            PE::Sub(a, b) => format!("[{a}..+{b}]"),
        });
    }
    name
}
/// as an atomic load; what is written once stays
pub fn cell_load<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, p: &PtrV<'tcx>) -> R<Val<'tcx>> {
    let cur = it.read(st, p)?;
    if matches!(&cur, Val::En(e) if e.disc != Sc::C(0)) {
        if let Some(d) = static_of(p) {
            let name = cell_name(it, d, p);
            note_global(it, st, &format!("load:{name}"));
        }
        return Ok(cur);
    }
    atomic_load(it, st, p)
}
fn atomic_load<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, p: &PtrV<'tcx>) -> R<Val<'tcx>> {
    let Some(d) = static_of(p) else { return it.read(st, p) };
    let name = cell_name(it, d, p);
    let v = if st.conc && !it.tcx.is_thread_local_static(d) {
        // any value some thread may have stored, or the current one
        let cands = it.stores.get(&*name).cloned().unwrap_or_default();
        let cur = it.read(st, p)?;
        if cands.is_empty() {
            cur
        } else {
            let mut s2 = st.clone();
            let k = s2.count("conc-load");
            let mut names = vec!["value last seen by this thread".to_string()];
            for (i, c) in cands.iter().enumerate() {
                names.push(format!("another thread's store #{i} ({})", c.what));
            }
            let a = atom(&format!("load #{k} of {name} observes"), cands.len() + 1, Labels::Names(Rc::new(names)));
            let dm = st.dom(a);
            if card(&dm) > 1 {
                return Err(E::Need(a, partition(a, st, |i| i as u128)));
            }
            let i = elems(&dm).next().unwrap();
            *st = s2;
            if i == 0 {
                cur
            } else {
                let c = &cands[i - 1];
                let mut sup = vec![];
                support_val(&c.val, &mut sup)?;
                for p in &c.probes {
                    for s in &p.1 {
                        support(s, &mut sup);
                    }
                }
                sup.sort();
                sup.dedup();
                let mut map = std::collections::HashMap::new();
                for x in sup {
                    let (n, lab) = ATOMS.with(|a| {
                        let a = a.borrow();
                        (a.0[x as usize].n, a.0[x as usize].labels.clone())
                    });
                    let y = atom(&format!("{} (thread behind load #{k})", atom_name(x)), n, lab);
                    if let Some(dm) = c.doms.iter().find(|d| d.0 == x) {
                        st.set_dom(y, dm.1);
                    }
                    map.insert(x, y);
                }
                let f = |x: Atom| *map.get(&x).unwrap_or(&x);
                for p in &c.probes {
                    st.probes.push((p.0.clone(), p.1.iter().map(|s| rename(s, &f)).collect(), false));
                }
                let v = rename_val(&c.val, &f);
                it.write_raw(st, p, v.clone())?;
                v
            }
        }
    } else {
        it.read(st, p)?
    };
    note_global(it, st, &format!("load:{name}"));
    Ok(v)
}
fn atomic_store<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, p: &PtrV<'tcx>, v: Val<'tcx>) -> R<()> {
    it.write(st, p, v)
}
fn support_val<'tcx>(v: &Val<'tcx>, out: &mut Vec<Atom>) -> R<()> {
    match v {
        Val::S(s) => support(s, out),
        Val::Agg(a) => {
            for x in a.iter() {
                support_val(x, out)?;
            }
        }
        Val::En(e) => {
            support(&e.disc, out);
            for x in e.vars.iter().flat_map(|v| v.1.iter()) {
                support_val(x, out)?;
            }
        }
        Val::P(p) if matches!(p.base, Base::Stack(_) | Base::Heap(_)) => return unsup("a pointer kept in a static"),
        _ => (),
    }
    Ok(())
}
fn rename_val<'tcx>(v: &Val<'tcx>, f: &dyn Fn(Atom) -> Atom) -> Val<'tcx> {
    match v {
        Val::S(s) => Val::S(rename(s, f)),
        Val::Agg(a) => agg(a.iter().map(|x| rename_val(x, f)).collect()),
        Val::En(e) => Val::En(Rc::new(EnumV {
            disc: rename(&e.disc, f),
            vars: e.vars.iter().map(|(i, l)| (*i, l.iter().map(|x| rename_val(x, f)).collect())).collect(),
        })),
        o => o.clone(),
    }
}
/// every write to a static passes here: other threads may see it
pub fn record_store<'tcx>(it: &mut It<'tcx>, st: &mut State<'tcx>, d: DefId, p: &PtrV<'tcx>, v: &Val<'tcx>) -> R<()> {
    {
        let name = cell_name(it, d, p);
        if st.conc && !it.tcx.is_thread_local_static(d) {
            let mut sup = vec![];
            support_val(v, &mut sup)?;
            let s = v.clone();
            let what = it.site(st).map(|(d, _)| it.path(d).to_string()).unwrap_or_default();
            // what the value rests on: this thread's own probes, and those of other threads that it contains
            let mut probes = vec![];
            for p in &st.probes {
                let mut ps = vec![];
                for x in &p.1 {
                    support(x, &mut ps);
                }
                if p.2 || ps.iter().any(|x| sup.contains(x)) {
                    probes.push(p.clone());
                }
            }
            for p in &probes {
                for x in &p.1 {
                    support(x, &mut sup);
                }
            }
            sup.sort();
            sup.dedup();
            // one name for a thread's probe, however many threads handed the value on
            let base = |a: Atom| atom_name(a).split(" (thread behind").next().unwrap_or_default().to_string();
            let names: Vec<String> = sup.iter().map(|a| base(*a)).collect();
            let unique = |i: usize| names.iter().filter(|n| **n == names[i]).count() == 1;
            let mut doms = vec![];
            let mut map = std::collections::HashMap::new();
            for (i, a) in sup.iter().enumerate() {
                let mut b = *a;
                if unique(i) && names[i] != atom_name(*a) {
                    let (n, lab) = ATOMS.with(|t| {
                        let t = t.borrow();
                        (t.0[*a as usize].n, t.0[*a as usize].labels.clone())
                    });
                    b = atom(&names[i], n, lab);
                    map.insert(*a, b);
                }
                doms.push((b, st.dom(*a)));
            }
            let f = |x: Atom| *map.get(&x).unwrap_or(&x);
            for p in probes.iter_mut() {
                p.1 = p.1.iter().map(|s| rename(s, &f)).collect();
            }
            let s = rename_val(&s, &f);
            let e = Store { val: s, of: d, path: p.path.clone(), doms, what, probes };
            let l = it.stores.entry(name.to_string()).or_default();
            if it.collecting && !l.iter().any(|x| x.same(&e) && x.covers(&e)) {
                it.stores_grew = true;
                l.retain(|x| !(x.same(&e) && e.covers(x)));
                l.push(e);
                // two stores whose restrictions differ in one atom only are one store
                while let Some((i, j, a)) = (0..l.len())
                    .flat_map(|i| (0..i).map(move |j| (j, i)))
                    .find_map(|(i, j)| if l[i].same(&l[j]) { l[i].differ(&l[j]).map(|a| (i, j, a)) } else { None })
                {
                    let y = l.remove(j);
                    let (p, q) = (l[i].dom(a), y.dom(a));
                    l[i].doms.retain(|d| d.0 != a);
                    let mut u = p;
                    (0..4).for_each(|k| u[k] |= q[k]);
                    l[i].doms.push((a, u));
                    l[i].doms.sort();
                }
            }
        }
        note_global(it, st, &format!("store:{name}"));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn intrinsic<'tcx>(
    it: &mut It<'tcx>,
    st: &mut State<'tcx>,
    name: &str,
    d: DefId,
    gargs: GenericArgsRef<'tcx>,
    vals: Vec<Val<'tcx>>,
    cx: Ctx<'tcx>,
    fallback: bool,
) -> R<()> {
    let ty0 = || gargs.types().next();
    let r: Val<'tcx> = match name {
        "size_of" | "min_align_of" | "align_of" | "needs_drop" | "pref_align_of" => {
            let t = it.norm(ty0().unwrap());
            match name {
                "needs_drop" => con(t.needs_drop(it.tcx, it.env) as u128),
                _ => match it.tcx.layout_of(it.env.as_query_input(t)) {
                    Ok(l) => con(if name == "size_of" { l.size.bytes() as u128 } else { l.align.abi.bytes() as u128 }),
                    Err(_) => return unsup(format!("layout of {t}")),
                },
            }
        }
        "size_of_val" | "min_align_of_val" | "align_of_val" => {
            let t = it.norm(ty0().unwrap());
            match t.kind() {
                ty::Str | ty::Slice(_) if name == "size_of_val" => {
                    let e = match t.kind() {
                        ty::Slice(e) => *e,
                        _ => it.tcx.types.u8,
                    };
                    let sz = match it.tcx.layout_of(it.env.as_query_input(e)) {
                        Ok(l) => l.size.bytes() as u128,
                        Err(_) => return unsup("layout"),
                    };
                    let n = const_len(it, st, &vals[0])?;
                    Val::S(mk(Op::Mul, 64, false, n, Sc::C(sz), st))
                }
                _ => match it.tcx.layout_of(it.env.as_query_input(t)) {
                    Ok(l) => con(if name == "size_of_val" { l.size.bytes() as u128 } else { l.align.abi.bytes() as u128 }),
                    Err(_) => return unsup(format!("layout of {t}")),
                },
            }
        }
        "variant_count" => match it.norm(ty0().unwrap()).kind() {
            ty::Adt(a, _) => con(a.variants().len() as u128),
            _ => return unsup("variant_count"),
        },
        "offset" | "arith_offset" => {
            let k = it.int(st, &vals[1])?;
            it.ptr_add(&vals[0], sext(k, 64) as i64)?
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let p = it.ptr(&vals[0])?.clone();
            let q = it.ptr(&vals[1])?.clone();
            let (a, i) = split_idx(&p.path);
            let (b, j) = split_idx(&q.path);
            if p.base != q.base || a != b {
                return unsup("offset between unrelated pointers");
            }
            con(((i - j) as i128 as u128) & mask(64))
        }
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
            let p = it.ptr(&vals[0])?.clone();
            it.read(st, &p)?
        }
        "write_via_move" | "volatile_store" => {
            let p = it.ptr(&vals[0])?.clone();
            it.write(st, &p, vals[1].clone())?;
            unit()
        }
        "copy_nonoverlapping" | "copy" => {
            let n = it.int(st, &vals[2])? as u64;
            it.copy_elems(st, &vals[0], &vals[1], n)?;
            unit()
        }
        "write_bytes" => {
            let n = it.int(st, &vals[2])? as u64;
            let p = it.ptr(&vals[0])?.clone();
            for i in 0..n {
                let q = elem(&p, i)?;
                it.write(st, &q, vals[1].clone())?;
            }
            unit()
        }
        "transmute" | "transmute_unchecked" => {
            let a = it.norm(gargs.type_at(0));
            let b = it.norm(gargs.type_at(1));
            it.transmute(st, vals[0].clone(), a, b)?
        }
        "discriminant_value" => {
            let p = it.ptr(&vals[0])?.clone();
            let x = it.read(st, &p)?;
            let t = it.norm(ty0().unwrap());
            Val::S(it.discr_of(st, &x, t)?)
        }
        "cttz" | "cttz_nonzero" | "ctlz" | "ctlz_nonzero" | "ctpop" | "bswap" | "bitreverse" => {
            let t = it.norm(ty0().unwrap());
            let Some((w, _)) = int_info(it.tcx, t) else { return unsup(name) };
            let op = match name {
                "cttz" | "cttz_nonzero" => Op::Cttz,
                "ctlz" | "ctlz_nonzero" => Op::Ctlz,
                "ctpop" => Op::Ctpop,
                "bswap" => Op::Bswap,
                _ => Op::Bitrev,
            };
            let s = it.sc(st, &vals[0])?;
            let r = simp(&mk(op, w, false, s, Sc::C(0), st), st);
            Val::S(r)
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div"
        | "unchecked_rem" | "exact_div" | "unchecked_shl" | "unchecked_shr" => {
            let t = it.norm(ty0().unwrap());
            let Some((w, sg)) = int_info(it.tcx, t) else { return unsup(name) };
            let op = match name.rsplit('_').next().unwrap() {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "div" => Op::Div,
                "rem" => Op::Rem,
                "shl" => Op::Shl,
                _ => Op::Shr,
            };
            let a = it.sc(st, &vals[0])?;
            let b = it.sc(st, &vals[1])?;
            Val::S(mk(op, w, sg, a, b, st))
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let t = it.norm(ty0().unwrap());
            let Some((w, sg)) = int_info(it.tcx, t) else { return unsup(name) };
            let (o, p) = match &name[..3] {
                "add" => (Op::Add, Op::AddO),
                "sub" => (Op::Sub, Op::SubO),
                _ => (Op::Mul, Op::MulO),
            };
            let a = it.sc(st, &vals[0])?;
            let b = it.sc(st, &vals[1])?;
            agg(vec![Val::S(mk(o, w, sg, a.clone(), b.clone(), st)), Val::S(mk(p, w, sg, a, b, st))])
        }
        "saturating_add" | "saturating_sub" => {
            let t = it.norm(ty0().unwrap());
            let Some((w, sg)) = int_info(it.tcx, t) else { return unsup(name) };
            if sg {
                return unsup(name);
            }
            let (o, p) = if name == "saturating_add" { (Op::Add, Op::AddO) } else { (Op::Sub, Op::SubO) };
            let a = it.sc(st, &vals[0])?;
            let b = it.sc(st, &vals[1])?;
            let ov = mk(p, w, sg, a.clone(), b.clone(), st);
            if it.decide(st, &ov)? {
                con(if name == "saturating_add" { mask(w) } else { 0 })
            } else {
                Val::S(mk(o, w, sg, a, b, st))
            }
        }
        "rotate_left" | "rotate_right" => {
            let t = it.norm(ty0().unwrap());
            let Some((w, _)) = int_info(it.tcx, t) else { return unsup(name) };
            let s = it.sc(st, &vals[0])?;
            let k = (it.int(st, &vals[1])? as u32) % w;
            let k = if name == "rotate_left" { k } else { (w - k) % w };
            let a = mk(Op::Shl, w, false, s.clone(), Sc::C(k as u128), st);
            let b = mk(Op::Shr, w, false, s, Sc::C(((w - k) % w) as u128), st);
            Val::S(if k == 0 { a } else { mk(Op::Or, w, false, a, b, st) })
        }
        "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "forget"
        | "atomic_fence" | "atomic_singlethreadfence" | "prefetch_read_data" | "drop_in_place" => unit(),
        "likely" | "unlikely" | "black_box" => vals[0].clone(),
        "is_val_statically_known" => con(0),
        "ub_checks" | "contract_checks" | "overflow_checks" => con((name == "overflow_checks") as u128),
        "caller_location" => Val::Opq("location".into()),
        "abort" | "unreachable" | "breakpoint" => return Err(E::Panic(format!("intrinsic {name} reached"))),
        "select_unpredictable" => {
            let c = it.sc(st, &vals[0])?;
            if it.decide(st, &c)? {
                vals[1].clone()
            } else {
                vals[2].clone()
            }
        }
        "raw_eq" => {
            let p = it.ptr(&vals[0])?.clone();
            let q = it.ptr(&vals[1])?.clone();
            let a = it.read(st, &p)?;
            let b = it.read(st, &q)?;
            Val::S(raw_eq_vals(it, st, &a, &b)?)
        }
        "compare_bytes" => {
            let n = it.int(st, &vals[2])? as u64;
            let p = it.ptr(&vals[0])?.clone();
            let q = it.ptr(&vals[1])?.clone();
            let mut res = con(0);
            for i in 0..n {
                let x = it.read(st, &elem(&p, i)?)?;
                let y = it.read(st, &elem(&q, i)?)?;
                let x = it.sc(st, &x)?;
                let y = it.sc(st, &y)?;
                let e = mk(Op::Eq, 8, false, x.clone(), y.clone(), st);
                if it.decide(st, &e)? {
                    continue;
                }
                // only the sign of the result matters; equality tests do not need the order
                let lt = mk(Op::Lt, 8, false, x, y, st);
                res = match simp(&lt, st) {
                    Sc::C(1) => con(mask(32)),
                    Sc::C(_) => con(1),
                    _ => con(1),
                };
                if !matches!(simp(&lt, st), Sc::C(_)) {
                    let u = it.fresh_unk(1, mask(32));
                    res = Val::S(u);
                }
                break;
            }
            res
        }
        "ptr_metadata" => match &it.ptr(&vals[0])?.meta {
            Meta::Len(s) => Val::S(s.clone()),
            Meta::None => unit(),
            _ => return unsup("vtable metadata"),
        },
        "aggregate_raw_ptr" => {
            let mut q = (**it.ptr(&vals[0])?).clone();
            if let Val::S(s) = &vals[1] {
                if !matches!(q.path.last(), Some(PE::I(_))) {
                    It::push_idx(&mut q.path, 0);
                }
                q.meta = Meta::Len(s.clone());
            }
            Val::P(Rc::new(q))
        }
        "slice_get_unchecked" => {
            let p = it.ptr(&vals[0])?.clone();
            let k = it.int(st, &vals[1])? as u64;
            Val::P(Rc::new(elem(&p, k)?))
        }
        "three_way_compare" => {
            let t = it.norm(ty0().unwrap());
            let Some((w, sg)) = int_info(it.tcx, t) else { return unsup(name) };
            let a = it.sc(st, &vals[0])?;
            let b = it.sc(st, &vals[1])?;
            let lt = mk(Op::Lt, w, sg, a.clone(), b.clone(), st);
            let gt = mk(Op::Lt, w, sg, b, a, st);
            let k = if it.decide(st, &lt)? {
                0
            } else if it.decide(st, &gt)? {
                2
            } else {
                1
            };
            Val::En(Rc::new(EnumV { disc: Sc::C(k), vars: vec![] }))
        }
        "type_id" => {
            return unsup("type_id");
        }
        "const_eval_select" => {
            // (args, const fn, runtime fn): the runtime alternative may use SIMD; both are specified to agree
            let t = it.norm(gargs.type_at(1));
            let mut v = vec![vals[1].clone()];
            match &vals[0] {
                Val::Agg(a) => v.extend(a.iter().cloned()),
                o => v.push(o.clone()),
            }
            let m = it.tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::FnOnce, cx.span);
            let md = it
                .tcx
                .associated_items(m)
                .in_definition_order()
                .find(|i| i.name().as_str() == "call_once")
                .unwrap()
                .def_id;
            return call_fn_trait(it, st, t, md, v, cx);
        }
        n if n.starts_with("atomic_") => {
            let p = it.ptr(&vals[0])?.clone();
            if interrupted(it, st, &p)? {
                return run_other(it, st, &cx, false);
            }
            match n {
                "atomic_load" => atomic_load(it, st, &p)?,
                "atomic_store" => {
                    atomic_store(it, st, &p, vals[1].clone())?;
                    unit()
                }
                "atomic_xchg" => {
                    let mut s2 = st.clone();
                    let o = atomic_load(it, &mut s2, &p)?;
                    atomic_store(it, &mut s2, &p, vals[1].clone())?;
                    *st = s2;
                    o
                }
                "atomic_cxchg" | "atomic_cxchgweak" => {
                    let mut s2 = st.clone();
                    let o = atomic_load(it, &mut s2, &p)?;
                    let x = it.sc(&s2, &o)?;
                    let y = it.sc(&s2, &vals[1])?;
                    let e = mk(Op::Eq, 64, false, x, y, &s2);
                    let mut ok = it.decide(&s2, &e)?;
                    if ok && n == "atomic_cxchgweak" {
                        let k = s2.count("weak-cas");
                        let names = vec!["succeeds".to_string(), "fails spuriously".to_string()];
                        let a = atom(&format!("weak compare-and-swap #{k}"), 2, Labels::Names(Rc::new(names)));
                        let dm = st.dom(a);
                        if card(&dm) > 1 {
                            return Err(E::Need(a, partition(a, st, |i| i as u128)));
                        }
                        ok = elems(&dm).next() == Some(0);
                    }
                    // a retry loop: every failure but the spurious ones is another thread's success; two of them
                    // in a row leave the loop in a state it has been in before
                    for f in s2.frames.iter_mut() {
                        if ok {
                            f.fails.clear();
                            continue;
                        }
                        let bb = f.bb;
                        let n = match f.fails.iter_mut().find(|x| x.0 == bb) {
                            Some(x) => {
                                x.1 += 1;
                                x.1
                            }
                            None => {
                                f.fails.push((bb, 1));
                                1
                            }
                        };
                        if n > 2 {
                            it.stats.retries += 1;
                            return Err(E::Dead);
                        }
                    }
                    if ok {
                        atomic_store(it, &mut s2, &p, vals[2].clone())?;
                    }
                    *st = s2;
                    agg(vec![o, con(ok as u128)])
                }
                "atomic_or" | "atomic_and" | "atomic_xor" | "atomic_xadd" | "atomic_xsub" => {
                    let mut s2 = st.clone();
                    let o = atomic_load(it, &mut s2, &p)?;
                    let t = it.norm(ty0().unwrap());
                    let Some((w, _)) = int_info(it.tcx, t) else { return unsup(n) };
                    let x = it.sc(&s2, &o)?;
                    let y = it.sc(&s2, &vals[1])?;
                    let op = match n {
                        "atomic_or" => Op::Or,
                        "atomic_and" => Op::And,
                        "atomic_xor" => Op::Xor,
                        "atomic_xadd" => Op::Add,
                        _ => Op::Sub,
                    };
                    let r = mk(op, w, false, x, y, &s2);
                    atomic_store(it, &mut s2, &p, Val::S(r))?;
                    *st = s2;
                    o
                }
                _ => return unsup(format!("intrinsic {n}")),
            }
        }
        _ => {
            if fallback {
                let inst = Instance::new_raw(d, gargs);
                let body = it.body(inst, None)?;
                return it.push_frame(st, inst, body, vals, Some((cx.dest, cx.target)), cx.span);
            }
            return unsup(format!("intrinsic {name}"));
        }
    };
    fin(it, st, &cx, r)
}
