//! The abstract interpreter over MIR.
use crate::sc::*;
use crate::val::*;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub enum E {
    Need(Atom, Vec<Set>),
    Panic(String),
    Unsup(String),
    Dead,
    /// a check failed in this state
    Fail(String, String),
}
pub type R<T> = Result<T, E>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(E::Unsup(s.into()))
}

/// lengths of symbolic text up to this one are analysed individually, all longer ones as one class
pub const LMAX: usize = 40;

pub struct Violation {
    pub key: String,
    pub text: String,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub states: u64,
    pub splits: u64,
    pub checks: u64,
    pub calls: u64,
    pub consts: u64,
    pub panics_sites: u64,
    pub retries: u64,
    pub finished: u64,
}

#[derive(Clone)]
pub struct Store<'tcx> {
    pub val: Val<'tcx>,
    pub of: DefId,
    /// where in the static
    pub path: Vec<PE>,
    pub doms: Vec<(Atom, Set)>,
    pub what: String,
    pub probes: Vec<(Rc<str>, Vec<Sc>, bool)>,
}
impl<'tcx> Store<'tcx> {
    pub fn dom(&self, a: Atom) -> Set {
        self.doms.iter().find(|d| d.0 == a).map(|d| d.1).unwrap_or_else(|| full(atom_size(a)))
    }
    fn atoms(&self, o: &Self) -> Vec<Atom> {
        self.doms.iter().chain(o.doms.iter()).map(|d| d.0).collect()
    }
    /// same value, same place, resting on the same probes
    pub fn same(&self, o: &Self) -> bool {
        self.val == o.val && self.what == o.what && self.probes == o.probes
    }
    pub fn covers(&self, o: &Self) -> bool {
        self.atoms(o).into_iter().all(|a| card(&minus(&o.dom(a), &self.dom(a))) == 0)
    }
    /// the only atom in which the restrictions differ
    pub fn differ(&self, o: &Self) -> Option<Atom> {
        let mut d: Vec<Atom> = self.atoms(o).into_iter().filter(|a| self.dom(*a) != o.dom(*a)).collect();
        d.sort();
        d.dedup();
        if d.len() == 1 {
            Some(d[0])
        } else {
            None
        }
    }
}

pub struct It<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub globals: Vec<Rc<Val<'tcx>>>,
    pub alloc_globs: HashMap<(Tgt<'tcx>, Ty<'tcx>, Option<u64>), u32>,
    pub bodies: HashMap<Instance<'tcx>, Rc<Body<'tcx>>>,
    pub promoted: HashMap<(Instance<'tcx>, u32), Rc<Body<'tcx>>>,
    pub const_cache: HashMap<(DefId, GenericArgsRef<'tcx>, Option<u32>), Val<'tcx>>,
    pub paths: HashMap<DefId, Rc<str>>,
    pub transp: HashMap<Ty<'tcx>, Option<u32>>,
    pub dump: Rc<crate::facts::Dump>,
    pub relation_acc: BTreeSet<(u128, u128)>,
    pub stats: Stats,
    pub fns: BTreeSet<String>,
    pub seen_fn: HashSet<DefId>,
    pub sites: HashSet<(DefId, u32)>,
    pub check_sites: BTreeMap<String, u64>,
    pub relation: Option<BTreeSet<(u128, u128)>>,
    pub shard: u128,
    pub opts_tab: Vec<String>,
    pub stores: BTreeMap<String, Vec<Store<'tcx>>>,
    pub unk: u32,
    pub long_lens: HashSet<u32>,
    pub bounded: std::cell::Cell<u64>,
    pub violations: Vec<Violation>,
    pub viol_seen: u64,
    pub viol_steps: u64,
    pub errors: BTreeSet<String>,
    pub finals: Vec<State<'tcx>>,
    pub keep_finals: bool,
    pub max_steps: u64,
    /// seconds since the epoch after which the analysis gives up
    pub until: u64,
    pub trace: bool,
    pub features: Vec<String>,
    pub collecting: bool,
    pub stores_grew: bool,
    /// statics whose contents may change
    pub mutable: HashMap<DefId, bool>,
    /// the operations of the standard library that the rules spell out, by path
    pub spelled: HashMap<String, DefId>,
}

/// constant memory and what it points to
pub struct Mem<'tcx> {
    pub bytes: Vec<u8>,
    pub ptrs: Vec<(u64, Tgt<'tcx>)>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Tgt<'tcx> {
    Alloc(AllocId, u64),
    Dump(u32, u64),
    Static(DefId),
    Fn(Instance<'tcx>),
    Bad,
}
fn tgt<'tcx>(tcx: TyCtxt<'tcx>, id: AllocId, off: u64) -> Tgt<'tcx> {
    match tcx.global_alloc(id) {
        GlobalAlloc::Static(d) if off == 0 => Tgt::Static(d),
        GlobalAlloc::Function { instance } => Tgt::Fn(instance),
        GlobalAlloc::Memory(_) => Tgt::Alloc(id, off),
        _ => Tgt::Bad,
    }
}
fn mem_from<'tcx>(tcx: TyCtxt<'tcx>, a: &rustc_middle::mir::interpret::Allocation) -> Mem<'tcx> {
    let n = a.size().bytes() as usize;
    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
    let mut ptrs = vec![];
    for (o, p) in a.provenance().ptrs().iter() {
        let o = o.bytes();
        let mut add = 0u64;
        for k in 0..8 {
            add |= (bytes[o as usize + k] as u64) << (8 * k);
        }
        ptrs.push((o, tgt(tcx, p.alloc_id(), add)));
    }
    Mem { bytes, ptrs }
}

pub fn int_info<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>) -> Option<(u32, bool)> {
    Some(match ty.kind() {
        ty::Bool => (1, false),
        ty::Char => (32, false),
        ty::Int(i) => (i.bit_width().unwrap_or(64) as u32, true),
        ty::Uint(i) => (i.bit_width().unwrap_or(64) as u32, false),
        ty::Pat(t, _) => return int_info(tcx, *t),
        _ => return None,
    })
}

impl<'tcx> It<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>) -> Self {
        It {
            tcx,
            env,
            globals: vec![],
            alloc_globs: HashMap::new(),
            bodies: HashMap::new(),
            promoted: HashMap::new(),
            const_cache: HashMap::new(),
            paths: HashMap::new(),
            transp: HashMap::new(),
            dump: Default::default(),
            relation_acc: BTreeSet::new(),
            stats: Stats::default(),
            fns: BTreeSet::new(),
            seen_fn: HashSet::new(),
            sites: HashSet::new(),
            check_sites: BTreeMap::new(),
            relation: None,
            shard: 0,
            opts_tab: vec!["caller".into(), "default".into()],
            stores: BTreeMap::new(),
            unk: 0,
            long_lens: HashSet::new(),
            bounded: std::cell::Cell::new(0),
            violations: vec![],
            viol_seen: 0,
            viol_steps: 0,
            errors: BTreeSet::new(),
            finals: vec![],
            keep_finals: false,
            max_steps: 4_000_000_000,
            until: std::env::var("ABSINT_UNTIL").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX),
            trace: std::env::var_os("ABSINT_TRACE").is_some(),
            features: vec![],
            collecting: false,
            stores_grew: false,
            mutable: HashMap::new(),
            spelled: HashMap::new(),
        }
    }

    pub fn path(&mut self, d: DefId) -> Rc<str> {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let s: Rc<str> = crate::def_path(self.tcx, d).into();
        self.paths.insert(d, s.clone());
        s
    }

    // ---------------------------------------------------------------- types
    pub fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, t: T) -> T
    where
        T: ty::TypeVisitable<TyCtxt<'tcx>>,
    {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }
    pub fn is_zst(&self, t: Ty<'tcx>) -> bool {
        self.tcx.layout_of(self.env.as_query_input(t)).map_or(false, |l| l.is_zst())
    }
    pub fn field_tys(&self, adt: ty::AdtDef<'tcx>, v: VariantIdx, args: GenericArgsRef<'tcx>) -> Vec<Ty<'tcx>> {
        adt.variant(v)
            .fields
            .iter()
            .map(|f| self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args)))
            .collect()
    }
    /// for transparent structs and unions: the field that carries the value
    pub fn transparent(&mut self, t: Ty<'tcx>) -> Option<u32> {
        let ty::Adt(adt, args) = t.kind() else { return None };
        if let Some(r) = self.transp.get(&t) {
            return *r;
        }
        let r = if adt.is_union() {
            Some(u32::MAX)
        } else if adt.is_struct() && (adt.repr().transparent() || adt.is_manually_drop()) {
            let tys = self.field_tys(*adt, VariantIdx::from_u32(0), args);
            tys.iter().position(|t| !self.is_zst(*t)).map(|x| x as u32)
        } else {
            None
        };
        self.transp.insert(t, r);
        r
    }
    pub fn zst(&mut self, t: Ty<'tcx>) -> R<Val<'tcx>> {
        Ok(match t.kind() {
            ty::Adt(adt, args) if adt.is_struct() => {
                let tys = self.field_tys(*adt, VariantIdx::from_u32(0), args);
                let mut v = vec![];
                for t in tys {
                    v.push(self.zst(t)?);
                }
                agg(v)
            }
            ty::Adt(adt, args) if adt.is_enum() => {
                for i in adt.variants().indices() {
                    let tys = self.field_tys(*adt, i, args);
                    if tys.iter().all(|t| self.is_zst(*t)) {
                        let mut v = vec![];
                        for t in tys {
                            v.push(self.zst(t)?);
                        }
                        return Ok(Val::En(Rc::new(EnumV { disc: Sc::C(i.as_u32() as u128), vars: vec![(i.as_u32(), v)] })));
                    }
                }
                return unsup(format!("zst enum {t}"));
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for t in ts.iter() {
                    v.push(self.zst(t)?);
                }
                agg(v)
            }
            ty::Array(e, n) => {
                let n = self.usize_const(*n)?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.zst(*e)?);
                }
                agg(v)
            }
            _ => unit(),
        })
    }
    pub fn usize_const(&mut self, c: ty::Const<'tcx>) -> R<u64> {
        let c = self.norm(c);
        match c.try_to_target_usize(self.tcx) {
            Some(x) => Ok(x),
            None => unsup(format!("non-constant array length {c}")),
        }
    }

    // ---------------------------------------------------------------- scalars
    pub fn konst(&self, st: &State<'tcx>, s: &Sc) -> R<u128> {
        match simp(s, st) {
            Sc::C(x) => Ok(x),
            o => match suggest(&o, st) {
                Some((a, p)) => Err(E::Need(a, p)),
                None if self.scans_past(&o) => Err(E::Dead),
                None => unsup(format!("imprecise: value not determined: {o:?}")),
            },
        }
    }
    /// a loop over a long text asks whether it has reached the end, after the last byte that is modelled:
    /// the path ends here (a bound of the analysis, counted in the evidence)
    fn scans_past(&self, s: &Sc) -> bool {
        let Sc::Ex(e) = s else { return false };
        let (k, len) = match (&e.a, &e.b) {
            (Sc::C(k), Sc::Unk(i, ..)) | (Sc::Unk(i, ..), Sc::C(k)) => (*k, *i),
            _ => return false,
        };
        let first = LMAX as u128 + 1;
        let past = matches!(e.op, Op::Lt | Op::Eq) && (first..first + 8).contains(&k) && self.long_lens.contains(&len);
        if past {
            self.bounded.set(self.bounded.get() + 1);
        }
        past
    }
    pub fn decide(&self, st: &State<'tcx>, s: &Sc) -> R<bool> {
        match simp(s, st) {
            Sc::C(x) => Ok(x != 0),
            o => match suggest(&o, st) {
                Some((a, p)) => {
                    if p.len() < 2 {
                        return unsup(format!("no progress deciding {o:?}"));
                    }
                    Err(E::Need(a, p))
                }
                None if self.scans_past(&o) => Err(E::Dead),
                None => unsup(format!("imprecise: condition not determined: {o:?}")),
            },
        }
    }
    pub fn sc(&self, st: &State<'tcx>, v: &Val<'tcx>) -> R<Sc> {
        match v {
            Val::S(s) => Ok(simp(s, st)),
            Val::Agg(a) if a.len() == 1 => self.sc(st, &a[0]),
            _ => unsup(format!("scalar expected, got {v:?}")),
        }
    }
    pub fn int(&self, st: &State<'tcx>, v: &Val<'tcx>) -> R<u128> {
        let s = self.sc(st, v)?;
        self.konst(st, &s)
    }
    pub fn ptr<'a>(&self, v: &'a Val<'tcx>) -> R<&'a Rc<PtrV<'tcx>>> {
        match v {
            Val::P(p) => Ok(p),
            Val::Agg(a) if a.len() == 1 => self.ptr(&a[0]),
            _ => unsup(format!("pointer expected, got {v:?}")),
        }
    }
    pub fn fresh_unk(&mut self, lo: u128, hi: u128) -> Sc {
        self.unk += 1;
        Sc::Unk(self.unk, lo, hi)
    }

    // ---------------------------------------------------------------- memory
    fn root(&mut self, st: &State<'tcx>, b: &Base) -> R<Rc<Val<'tcx>>> {
        Ok(match b {
            Base::Stack(i) => match st.objs.get(*i as usize) {
                Some(x) => x.clone(),
                None => return unsup("dangling stack pointer"),
            },
            Base::Heap(i) => match st.heap.get(*i as usize) {
                Some(x) => x.clone(),
                None => return unsup("dangling heap pointer"),
            },
            Base::Glob(i) => self.globals[*i as usize].clone(),
            Base::Static(d) => match st.statics.iter().find(|s| s.0 == *d) {
                Some(s) => s.1.clone(),
                None => Rc::new(self.static_value(*d)?),
            },
            Base::Dang(_) => return unsup("dereference of a dangling pointer"),
        })
    }
    pub fn static_value(&mut self, d: DefId) -> R<Val<'tcx>> {
        let p = self.path(d);
        let ty = self.tcx.type_of(d).instantiate_identity();
        let ty = self.tcx.normalize_erasing_regions(self.env, ty);
        if let Some(i) = self.dump.statics.get(&*p).copied() {
            let m = self.mem_of(&Tgt::Dump(i, 0))?;
            return self.decode(&m, 0, ty);
        }
        if d.is_local() {
            if let Ok(a) = self.tcx.eval_static_initializer(d) {
                let m = mem_from(self.tcx, a.inner());
                return self.decode(&Rc::new(m), 0, ty);
            }
        }
        unsup(format!("initial value of static {p} is not known"))
    }
    fn mem_of(&mut self, t: &Tgt<'tcx>) -> R<Rc<Mem<'tcx>>> {
        Ok(Rc::new(match t {
            Tgt::Alloc(id, _) => match self.tcx.global_alloc(*id) {
                GlobalAlloc::Memory(a) => mem_from(self.tcx, a.inner()),
                _ => return unsup("constant allocation kind"),
            },
            Tgt::Dump(i, _) => {
                let dump = self.dump.clone();
                let a = &dump.allocs[*i as usize];
                let mut ptrs = vec![];
                for (o, t, add) in &a.ptrs {
                    let g = if let Some(x) = t.strip_prefix('a') {
                        Tgt::Dump(x.parse().unwrap(), *add)
                    } else if let Some(x) = t.strip_prefix('s') {
                        match crate::def_of_hash(self.tcx, x) {
                            Some(d) if *add == 0 => Tgt::Static(d),
                            _ => Tgt::Bad,
                        }
                    } else if let Some(x) = t.strip_prefix('f') {
                        match crate::def_of_hash(self.tcx, x) {
                            Some(d) => {
                                let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                                match t.kind() {
                                    ty::Closure(_, args) => Tgt::Fn(Instance::new_raw(d, args)),
                                    ty::FnDef(_, args) if args.skip_binder().is_empty() => Tgt::Fn(Instance::mono(self.tcx, d)),
                                    _ => Tgt::Bad,
                                }
                            }
                            None => Tgt::Bad,
                        }
                    } else {
                        Tgt::Bad
                    };
                    ptrs.push((*o, g));
                }
                Mem { bytes: a.bytes.clone(), ptrs }
            }
            _ => return unsup("constant memory"),
        }))
    }
    fn num(b: &[u8], off: usize, n: usize) -> R<u128> {
        if off + n > b.len() {
            return unsup("constant data out of range");
        }
        let mut v = 0u128;
        for i in 0..n {
            v |= (b[off + i] as u128) << (8 * i);
        }
        Ok(v)
    }
    /// a function of the rules, by its path
    pub fn rule_fn(&mut self, path: &str) -> Option<DefId> {
        if self.spelled.is_empty() {
            for d in self.tcx.hir_crate_items(()).definitions() {
                if self.tcx.def_kind(d) == rustc_hir::def::DefKind::Fn {
                    let p = self.path(d.to_def_id()).to_string();
                    self.spelled.insert(p, d.to_def_id());
                }
            }
        }
        self.spelled.get(path).copied()
    }
    /// cells that are written once: Some(true) for the lazy ones
    pub fn once_like(&mut self, d: DefId) -> Option<bool> {
        match &*self.path(d) {
            "std::sync::once_lock::OnceLock" | "std::sync::once::Once" => Some(false),
            "std::sync::lazy_lock::LazyLock" => Some(true),
            _ => None,
        }
    }
    /// turn constant memory into a structured value
    fn decode(&mut self, m: &Rc<Mem<'tcx>>, off: usize, ty: Ty<'tcx>) -> R<Val<'tcx>> {
        if let Some((w, _)) = int_info(self.tcx, ty) {
            let n = if w == 1 { 1 } else { w as usize / 8 };
            return Ok(con(Self::num(&m.bytes, off, n)?));
        }
        let l = match self.tcx.layout_of(self.env.as_query_input(ty)) {
            Ok(l) => l,
            Err(_) => return unsup(format!("layout of {ty}")),
        };
        if l.is_zst() {
            return self.zst(ty);
        }
        match ty.kind() {
            ty::Array(e, n) => {
                let n = self.usize_const(*n)?;
                let es = match self.tcx.layout_of(self.env.as_query_input(*e)) {
                    Ok(l) => l.size.bytes() as usize,
                    Err(_) => return unsup("layout"),
                };
                let mut v = vec![];
                for i in 0..n as usize {
                    v.push(self.decode(m, off + i * es, *e)?);
                }
                Ok(agg(v))
            }
            ty::Pat(b, _) => self.decode(m, off, *b),
            ty::Adt(adt, args) if adt.is_struct() && self.once_like(adt.did()).is_some() => {
                // nothing has been stored yet; a lazy cell still has its initialiser
                let none = Val::En(Rc::new(EnumV { disc: Sc::C(0), vars: vec![(0, vec![])] }));
                if self.once_like(adt.did()) != Some(true) {
                    return Ok(none);
                }
                let tys = self.field_tys(*adt, VariantIdx::from_u32(0), args);
                let i = adt.non_enum_variant().fields.iter().position(|f| f.name.as_str() == "data");
                let (Some(i), Some(f)) = (i, args.types().nth(1)) else { return unsup("lazy cell") };
                let _ = tys;
                let o = l.fields.offset(i).bytes() as usize;
                let f = self.decode(m, off + o, f)?;
                Ok(agg(vec![none, f]))
            }
            ty::Adt(adt, args) if adt.is_struct() => {
                let tys = self.field_tys(*adt, VariantIdx::from_u32(0), args);
                let mut v = vec![];
                for (i, t) in tys.iter().enumerate() {
                    let o = l.fields.offset(i).bytes() as usize;
                    v.push(self.decode(m, off + o, *t)?);
                }
                match self.transparent(ty) {
                    Some(f) if f != u32::MAX => Ok(v[f as usize].clone()),
                    _ => Ok(agg(v)),
                }
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    let o = l.fields.offset(i).bytes() as usize;
                    v.push(self.decode(m, off + o, t)?);
                }
                Ok(agg(v))
            }
            ty::Adt(adt, args) if adt.is_enum() => {
                use rustc_abi::{TagEncoding, Variants};
                let vi = match &l.variants {
                    Variants::Single { index } => *index,
                    Variants::Empty => return Err(E::Dead),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let o = off + l.fields.offset(tag_field.as_usize()).bytes() as usize;
                        let n = tag.size(&self.tcx).bytes() as usize;
                        let is_ptr = m.ptrs.iter().any(|p| p.0 as usize == o);
                        let x = Self::num(&m.bytes, o, n)?;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for (i, d) in adt.discriminants(self.tcx) {
                                    if d.val & mask(8 * n as u32) == x {
                                        r = Some(i);
                                    }
                                }
                                match r {
                                    Some(i) => i,
                                    None => return unsup("bad enum data"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = x.wrapping_sub(*niche_start) & mask(8 * n as u32);
                                let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                if !is_ptr && rel <= cnt {
                                    VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                } else {
                                    *untagged_variant
                                }
                            }
                        }
                    }
                };
                let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
                let vl = l.for_variant(&cx, vi);
                let tys = self.field_tys(*adt, vi, args);
                let mut v = vec![];
                for (i, t) in tys.iter().enumerate() {
                    let o = vl.fields.offset(i).bytes() as usize;
                    v.push(self.decode(m, off + o, *t)?);
                }
                let vars = if v.is_empty() { vec![] } else { vec![(vi.as_u32(), v)] };
                Ok(Val::En(Rc::new(EnumV { disc: Sc::C(vi.as_u32() as u128), vars })))
            }
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => {
                let len = match t.kind() {
                    ty::Str | ty::Slice(_) => Some(Self::num(&m.bytes, off + 8, 8)? as u64),
                    ty::Dynamic(..) => return unsup("trait object in constant data"),
                    _ => None,
                };
                let tgt = m.ptrs.iter().find(|p| p.0 as usize == off).map(|p| p.1.clone());
                match tgt {
                    None => {
                        let a = Self::num(&m.bytes, off, 8)? as u64;
                        let (path, meta) = match len {
                            Some(n) => (vec![PE::I(0)], Meta::Len(Sc::C(n as u128))),
                            None => (vec![], Meta::None),
                        };
                        Ok(Val::P(Rc::new(PtrV { base: Base::Dang(a), path, meta })))
                    }
                    Some(g) => self.tgt_ptr(&g, Some(*t), len),
                }
            }
            ty::FnPtr(..) => match m.ptrs.iter().find(|p| p.0 as usize == off).map(|p| p.1.clone()) {
                Some(Tgt::Fn(i)) => Ok(Val::Fn(i)),
                _ => unsup("function pointer in constant data"),
            },
            _ => unsup(format!("decode constant of type {ty}")),
        }
    }
    fn tgt_ptr(&mut self, g: &Tgt<'tcx>, pointee: Option<Ty<'tcx>>, len: Option<u64>) -> R<Val<'tcx>> {
        let off = match g {
            Tgt::Static(d) => return Ok(Val::P(Rc::new(PtrV { base: Base::Static(*d), path: vec![], meta: Meta::None }))),
            Tgt::Fn(i) => return Ok(Val::Fn(*i)),
            Tgt::Bad => return unsup("constant pointer"),
            Tgt::Alloc(_, o) | Tgt::Dump(_, o) => *o,
        };
        let Some(t) = pointee else { return unsup("constant pointer type") };
        let key = (g.clone(), t, len);
        let gi = match self.alloc_globs.get(&key) {
            Some(x) => *x,
            None => {
                let m = self.mem_of(g)?;
                let v = match len {
                    None => self.decode(&m, off as usize, t)?,
                    Some(n) => {
                        let e = match t.kind() {
                            ty::Slice(e) => *e,
                            _ => self.tcx.types.u8,
                        };
                        let es = match self.tcx.layout_of(self.env.as_query_input(e)) {
                            Ok(l) => l.size.bytes() as usize,
                            Err(_) => return unsup("layout"),
                        };
                        let mut v = vec![];
                        for i in 0..n as usize {
                            v.push(self.decode(&m, off as usize + i * es, e)?);
                        }
                        agg(v)
                    }
                };
                self.globals.push(Rc::new(v));
                let x = self.globals.len() as u32 - 1;
                self.alloc_globs.insert(key, x);
                x
            }
        };
        Ok(Val::P(Rc::new(match len {
            Some(n) => PtrV { base: Base::Glob(gi), path: vec![PE::I(0)], meta: Meta::Len(Sc::C(n as u128)) },
            None => PtrV { base: Base::Glob(gi), path: vec![], meta: Meta::None },
        })))
    }
    fn tgt_of(&mut self, id: AllocId, off: u64) -> Tgt<'tcx> {
        tgt(self.tcx, id, off)
    }
    pub fn read(&mut self, st: &State<'tcx>, p: &PtrV<'tcx>) -> R<Val<'tcx>> {
        let root = self.root(st, &p.base)?;
        let mut cur: &Val<'tcx> = &root;
        let mut i = 0;
        let path = &p.path;
        while i < path.len() {
            match (&path[i], cur) {
                (PE::F(k), Val::Agg(v)) => match v.get(*k as usize) {
                    Some(x) => cur = x,
                    None => return unsup(format!("field {k} of {cur:?}")),
                },
                (PE::D(vr), Val::En(e)) => {
                    let Some(PE::F(k)) = path.get(i + 1) else {
                        return unsup("downcast without field");
                    };
                    match e.vars.iter().find(|x| x.0 == *vr).and_then(|x| x.1.get(*k as usize)) {
                        Some(x) => cur = x,
                        None => return unsup(format!("variant {vr}.{k} of {cur:?}")),
                    }
                    i += 1;
                }
                (PE::I(k), Val::Agg(v)) => match v.get(*k as usize) {
                    Some(x) => cur = x,
                    None => return unsup(format!("index {k} out of bounds of {}", v.len())),
                },
                (PE::I(k), Val::SymBytes(n)) => {
                    if i + 1 != path.len() {
                        return unsup("path below a byte");
                    }
                    return Ok(sym_byte(n, *k));
                }
                (PE::Sub(f, n), Val::Agg(v)) => {
                    if i + 1 == path.len() {
                        return Ok(agg(v[*f as usize..(*f + *n) as usize].to_vec()));
                    }
                    let PE::I(k) = path[i + 1] else { return unsup("path below subarray") };
                    cur = &v[(*f + k) as usize];
                    i += 1;
                }
                (PE::Sub(f, n), Val::SymBytes(nm)) => {
                    if i + 1 == path.len() {
                        return Ok(agg((0..*n).map(|k| sym_byte(nm, f + k)).collect()));
                    }
                    let PE::I(k) = path[i + 1] else { return unsup("path below subarray") };
                    return Ok(sym_byte(nm, f + k));
                }
                (PE::I(0), x) if !matches!(x, Val::Uninit) => (), // a single value viewed as a 1-element array
                (e, c) => return unsup(format!("projection {e:?} of {c:?}")),
            }
            i += 1;
        }
        Ok(cur.clone())
    }
    /// a static with interior mutability
    pub fn is_mutable_static(&mut self, d: DefId) -> bool {
        if let Some(r) = self.mutable.get(&d) {
            return *r;
        }
        let t = self.tcx.type_of(d).instantiate_identity();
        let t = self.tcx.normalize_erasing_regions(self.env, t);
        let r = !t.is_freeze(self.tcx, self.env);
        self.mutable.insert(d, r);
        r
    }
    pub fn write(&mut self, st: &mut State<'tcx>, p: &PtrV<'tcx>, v: Val<'tcx>) -> R<()> {
        if let Base::Static(d) = p.base {
            crate::models::record_store(self, st, d, p, &v)?;
        }
        self.write_raw(st, p, v)
    }
    pub fn write_raw(&mut self, st: &mut State<'tcx>, p: &PtrV<'tcx>, v: Val<'tcx>) -> R<()> {
        let slot: &mut Rc<Val<'tcx>> = match &p.base {
            Base::Stack(i) => match st.objs.get_mut(*i as usize) {
                Some(x) => x,
                None => return unsup("dangling stack pointer"),
            },
            Base::Heap(i) => match st.heap.get_mut(*i as usize) {
                Some(x) => x,
                None => return unsup("dangling heap pointer"),
            },
            Base::Glob(_) => return unsup("write to a constant"),
            Base::Static(d) => {
                if !st.statics.iter().any(|s| s.0 == *d) {
                    let v = self.static_value(*d)?;
                    st.statics.push((*d, Rc::new(v)));
                }
                &mut st.statics.iter_mut().find(|s| s.0 == *d).unwrap().1
            }
            Base::Dang(_) => return unsup("write through a dangling pointer"),
        };
        if p.path.is_empty() {
            *slot = Rc::new(v);
            return Ok(());
        }
        wr(Rc::make_mut(slot), &p.path, v)
    }

    pub fn push_idx(path: &mut Vec<PE>, k: u64) {
        if let Some(PE::Sub(f, _)) = path.last() {
            let f = *f;
            path.pop();
            path.push(PE::I(f + k));
        } else {
            path.push(PE::I(k));
        }
    }

    pub fn place(&mut self, st: &State<'tcx>, fr: &Frame<'tcx>, pl: Place<'tcx>) -> R<PtrV<'tcx>> {
        let mut p = PtrV { base: Base::Stack(fr.base + pl.local.as_u32()), path: vec![], meta: Meta::None };
        let mut pt = PlaceTy::from_ty(fr.body.local_decls[pl.local].ty);
        for e in pl.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let v = self.read(st, &p)?;
                    match &v {
                        Val::P(q) => p = (**q).clone(),
                        Val::Agg(a) if a.len() == 1 => match &a[0] {
                            Val::P(q) => p = (**q).clone(),
                            _ => return unsup(format!("deref of {v:?}")),
                        },
                        Val::Opq(t) => {
                            return unsup(format!("deref of opaque {t}"));
                        }
                        _ => return unsup(format!("deref of {v:?}")),
                    }
                }
                ProjectionElem::Field(f, fty) => {
                    match self.transparent(pt.ty) {
                        Some(u32::MAX) => (),
                        Some(k) if k == f.as_u32() => (),
                        _ => p.path.push(PE::F(f.as_u32())),
                    }
                    if p.meta != Meta::None {
                        match fty.kind() {
                            // already a slice that was cast to its wrapper
                            ty::Slice(_) | ty::Str
                                if matches!(p.path.last(), Some(PE::I(_))) && self.wraps_slice(pt.ty) => (),
                            ty::Slice(_) | ty::Str => p.path.push(PE::I(0)),
                            ty::Dynamic(..) | ty::Adt(..) => (),
                            _ => p.meta = Meta::None,
                        }
                    }
                }
                ProjectionElem::Downcast(_, v) => p.path.push(PE::D(v.as_u32())),
                ProjectionElem::Index(l) => {
                    let iv = self.read(st, &PtrV { base: Base::Stack(fr.base + l.as_u32()), path: vec![], meta: Meta::None })?;
                    let k = self.int(st, &iv)? as u64;
                    self.index_into(&mut p, pt.ty, k);
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let k = if from_end {
                        let n = self.len_of(st, &p, pt.ty)?;
                        n - offset
                    } else {
                        offset
                    };
                    self.index_into(&mut p, pt.ty, k);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    if let ty::Array(_, n) = pt.ty.kind() {
                        let n = self.usize_const(*n)?;
                        let end = if from_end { n - to } else { to };
                        if let Some(PE::Sub(f, _)) = p.path.last().cloned() {
                            p.path.pop();
                            p.path.push(PE::Sub(f + from, end - from));
                        } else {
                            p.path.push(PE::Sub(from, end - from));
                        }
                    } else {
                        let Meta::Len(n) = p.meta.clone() else { return unsup("subslice") };
                        if let Some(PE::I(k)) = p.path.last_mut() {
                            *k += from;
                        }
                        let l = if from_end {
                            mk(Op::Sub, 64, false, n, Sc::C((from + to) as u128), st)
                        } else {
                            Sc::C((to - from) as u128)
                        };
                        p.meta = Meta::Len(l);
                    }
                }
                ProjectionElem::OpaqueCast(_) => (),
                _ => return unsup(format!("projection {e:?}")),
            }
            pt = pt.projection_ty(self.tcx, e);
            if let ProjectionElem::Field(..) | ProjectionElem::OpaqueCast(..) = e {
                // field types inside generic bodies are already normalised by body instantiation
            }
        }
        Ok(p)
    }
    fn index_into(&mut self, p: &mut PtrV<'tcx>, base_ty: Ty<'tcx>, k: u64) {
        if matches!(base_ty.kind(), ty::Slice(_) | ty::Str) {
            if let Some(PE::I(s)) = p.path.last_mut() {
                *s += k;
            } else {
                p.path.push(PE::I(k));
            }
            p.meta = Meta::None;
        } else {
            Self::push_idx(&mut p.path, k);
        }
    }
    fn len_of(&mut self, st: &State<'tcx>, p: &PtrV<'tcx>, t: Ty<'tcx>) -> R<u64> {
        if let ty::Array(_, n) = t.kind() {
            return self.usize_const(*n);
        }
        match &p.meta {
            Meta::Len(s) => Ok(self.konst(st, s)? as u64),
            _ => unsup("length of a thin place"),
        }
    }

    /// a plain read of a static whose contents may change
    fn note_read(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, pl: Place<'tcx>) {
        if !pl.is_indirect() {
            return;
        }
        if let Ok(p) = self.place(st, fr, pl) {
            if let Base::Static(d) = p.base {
                if self.is_mutable_static(d) {
                    let n = crate::models::cell_name(self, d, &p);
                    crate::models::note_global(self, st, &format!("load:{n}"));
                }
            }
        }
    }
    pub fn read_place(&mut self, st: &State<'tcx>, fr: &Frame<'tcx>, pl: Place<'tcx>) -> R<Val<'tcx>> {
        let r = (|| {
            let p = self.place(st, fr, pl)?;
            self.read(st, &p)
        })();
        match r {
            Ok(Val::Uninit) => {
                let t = pl.ty(&fr.body.local_decls, self.tcx).ty;
                if self.is_zst(t) {
                    self.zst(t)
                } else {
                    Ok(Val::Uninit)
                }
            }
            Err(E::Unsup(m)) => {
                let t = pl.ty(&fr.body.local_decls, self.tcx).ty;
                if self.is_zst(t) {
                    self.zst(t)
                } else {
                    Err(E::Unsup(m))
                }
            }
            o => o,
        }
    }

    // ---------------------------------------------------------------- constants
    pub fn operand(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, o: &Operand<'tcx>) -> R<Val<'tcx>> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                self.note_read(st, fr, *p);
                self.read_place(st, fr, *p)
            }
            Operand::Constant(c) => self.constant(st, fr, c.const_),
            Operand::RuntimeChecks(_) => Ok(con(match o {
                Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => 1,
                _ => 0,
            })),
        }
    }
    fn constant(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, c: Const<'tcx>) -> R<Val<'tcx>> {
        let _ = fr;
        match c {
            Const::Ty(t, k) => self.ty_const(st, t, k),
            Const::Unevaluated(uv, t) => {
                let args = self.norm(uv.args);
                self.named_const(st, uv.def, args, uv.promoted.map(|p| p.as_u32()), t)
            }
            Const::Val(v, t) => self.const_val(v, t),
        }
    }
    fn ty_const(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>, k: ty::Const<'tcx>) -> R<Val<'tcx>> {
        let k = self.norm(k);
        match k.kind() {
            ty::ConstKind::Value(v) => {
                if let Some(s) = v.try_to_leaf() {
                    return Ok(con(s.to_bits_unchecked()));
                }
                let c = self.tcx.valtree_to_const_val(v);
                self.const_val(c, t)
            }
            ty::ConstKind::Param(p) => {
                let key = format!("const {}", p.name);
                self.sym(st, t, &key)
            }
            ty::ConstKind::Alias(..) => unsup(format!("type-level constant {k}")),
            _ => unsup(format!("constant {k}")),
        }
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> R<Val<'tcx>> {
        match v {
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let n = i.size().bytes() as usize;
                let x = i.to_bits_unchecked();
                if int_info(self.tcx, t).is_some() {
                    return Ok(con(x));
                }
                if t.is_any_ptr() {
                    return Ok(Val::P(Rc::new(PtrV { base: Base::Dang(x as u64), path: vec![], meta: Meta::None })));
                }
                let b: Vec<u8> = (0..n).map(|i| (x >> (8 * i)) as u8).collect();
                self.decode(&Rc::new(Mem { bytes: b, ptrs: vec![] }), 0, t)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let g = self.tgt_of(prov.alloc_id(), off.bytes());
                if let ty::Adt(..) = t.kind() {
                    // a newtype around a pointer
                    let m = Mem { bytes: vec![0; 8], ptrs: vec![(0, g)] };
                    return self.decode(&Rc::new(m), 0, t);
                }
                self.tgt_ptr(&g, t.builtin_deref(true), None)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let g = self.tgt_of(alloc_id, 0);
                self.tgt_ptr(&g, t.builtin_deref(true), Some(meta))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let g = self.tgt_of(alloc_id, 0);
                let m = self.mem_of(&g)?;
                self.decode(&m, offset.bytes() as usize, t)
            }
        }
    }

    /// value of a named constant, by interpreting its initialiser
    pub fn named_const(
        &mut self,
        st: &mut State<'tcx>,
        def: DefId,
        args: GenericArgsRef<'tcx>,
        promoted: Option<u32>,
        t: Ty<'tcx>,
    ) -> R<Val<'tcx>> {
        let closed = !args.has_param();
        if closed {
            if let Some(v) = self.const_cache.get(&(def, args, promoted)) {
                return Ok(v.clone());
            }
        }
        self.stats.consts += 1;
        let inst = if promoted.is_some() {
            Instance::new_raw(def, args)
        } else {
            match Instance::try_resolve(self.tcx, self.env, def, args) {
                Ok(Some(i)) => i,
                Ok(None) => {
                    // associated constant of an opaque type: a symbolic value named by the constant
                    let key = format!("{}<{}>", self.path(def), targs(args));
                    return self.sym(st, t, &key);
                }
                Err(_) => return unsup("resolution error"),
            }
        };
        if promoted.is_none() {
            let d = inst.def_id();
            if matches!(self.tcx.def_kind(d), DefKind::Const | DefKind::AssocConst | DefKind::AnonConst) {
                if let Some((v, vt)) = self.tcx.trivial_const(d) {
                    let v = self.const_val(v, vt)?;
                    if closed {
                        self.const_cache.insert((def, args, promoted), v.clone());
                    }
                    return Ok(v);
                }
            }
        }
        let body = self.body(inst, promoted)?;
        let mut sub = State::new();
        if !closed {
            sub.doms = st.doms.clone();
        }
        self.push_frame(&mut sub, inst, body, vec![], None, rustc_span::DUMMY_SP)?;
        let v = self.run_nested(&mut sub)?;
        let mut memo = HashMap::new();
        let v = self.export(&sub, st, &v, closed, &mut memo)?;
        if closed {
            self.const_cache.insert((def, args, promoted), v.clone());
        }
        Ok(v)
    }
    fn run_nested(&mut self, sub: &mut State<'tcx>) -> R<Val<'tcx>> {
        loop {
            if sub.frames.is_empty() {
                return Ok(sub.result.take().unwrap_or_else(unit));
            }
            self.step(sub)?;
        }
    }
    /// copy the memory reachable from a constant's value out of the nested run
    fn export(
        &mut self,
        sub: &State<'tcx>,
        st: &mut State<'tcx>,
        v: &Val<'tcx>,
        glob: bool,
        memo: &mut HashMap<Base, Base>,
    ) -> R<Val<'tcx>> {
        Ok(match v {
            Val::Agg(a) => {
                let mut r = vec![];
                for x in a.iter() {
                    r.push(self.export(sub, st, x, glob, memo)?);
                }
                agg(r)
            }
            Val::En(e) => {
                let mut vars = vec![];
                for (i, f) in &e.vars {
                    let mut r = vec![];
                    for x in f {
                        r.push(self.export(sub, st, x, glob, memo)?);
                    }
                    vars.push((*i, r));
                }
                Val::En(Rc::new(EnumV { disc: e.disc.clone(), vars }))
            }
            Val::P(p) => {
                let b = match &p.base {
                    Base::Heap(_) | Base::Stack(_) => match memo.get(&p.base) {
                        Some(b) => b.clone(),
                        None => {
                            let inner = match &p.base {
                                Base::Heap(i) => sub.heap[*i as usize].clone(),
                                Base::Stack(_) => return unsup("constant points into a stack frame"),
                                _ => unreachable!(),
                            };
                            let w = self.export(sub, st, &inner, glob, memo)?;
                            let nb = if glob {
                                self.globals.push(Rc::new(w));
                                Base::Glob(self.globals.len() as u32 - 1)
                            } else {
                                st.alloc(w).base
                            };
                            memo.insert(p.base.clone(), nb.clone());
                            nb
                        }
                    },
                    b => b.clone(),
                };
                Val::P(Rc::new(PtrV { base: b, path: p.path.clone(), meta: p.meta.clone() }))
            }
            o => o.clone(),
        })
    }

    pub fn body(&mut self, inst: Instance<'tcx>, promoted: Option<u32>) -> R<Rc<Body<'tcx>>> {
        if let Some(p) = promoted {
            if let Some(b) = self.promoted.get(&(inst, p)) {
                return Ok(b.clone());
            }
        } else if let Some(b) = self.bodies.get(&inst) {
            return Ok(b.clone());
        }
        let raw: &Body<'tcx> = if let Some(p) = promoted {
            &self.tcx.promoted_mir(inst.def_id())[Promoted::from_u32(p)]
        } else {
            if let InstanceKind::Item(d) = inst.def {
                let k = self.tcx.def_kind(d);
                let ok = match k {
                    DefKind::Const | DefKind::AssocConst | DefKind::Static { .. } | DefKind::AnonConst => {
                        d.is_local() || true
                    }
                    DefKind::Ctor(..) => true,
                    _ => d.is_local() || self.tcx.is_mir_available(d),
                };
                if !ok {
                    return unsup(format!("no MIR for {}", self.path(d)));
                }
            }
            self.tcx.instance_mir(inst.def)
        };
        let b = inst.instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env,
            ty::EarlyBinder::bind(self.tcx, raw.clone()),
        );
        let b = Rc::new(b);
        if let Some(p) = promoted {
            self.promoted.insert((inst, p), b.clone());
        } else {
            self.bodies.insert(inst, b.clone());
        }
        Ok(b)
    }

    // ---------------------------------------------------------------- symbolic values
    pub fn sym(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>, key: &str) -> R<Val<'tcx>> {
        let t = self.norm(t);
        Ok(match t.kind() {
            ty::Bool => Val::S(Sc::Tab(atom(key, 2, Labels::Bool), vec![0, 1].into())),
            ty::Uint(_) | ty::Int(_) => {
                let (w, _) = int_info(self.tcx, t).unwrap();
                if w == 8 {
                    sym_u8(key)
                } else {
                    let mut bits = vec![];
                    for i in 0..w / 8 {
                        let a = atom(&format!("{key}.byte{i}"), 256, Labels::Byte);
                        let s = Sc::Tab(a, (0..256u128).collect::<Vec<_>>().into());
                        bits.extend(to_bits(&s, 8).unwrap());
                    }
                    Val::S(Sc::Bits(bits.into()))
                }
            }
            ty::Never => return Err(E::Dead),
            ty::Adt(adt, args) if adt.is_enum() => {
                let mut names = vec![];
                let mut vars = vec![];
                for (i, v) in adt.variants().iter_enumerated() {
                    let tys = self.field_tys(*adt, i, args);
                    let mut fs = vec![];
                    let mut dead = false;
                    for (k, ft) in tys.iter().enumerate() {
                        match self.sym(st, *ft, &format!("{key}.{}{k}", v.name)) {
                            Ok(x) => fs.push(x),
                            Err(E::Dead) => {
                                dead = true;
                                break;
                            }
                            Err(e) => return Err(e),
                        }
                    }
                    if dead {
                        continue;
                    }
                    names.push((i.as_u32(), v.name.to_string()));
                    vars.push((i.as_u32(), fs));
                }
                if vars.is_empty() {
                    return Err(E::Dead);
                }
                let disc = if names.len() == 1 {
                    Sc::C(names[0].0 as u128)
                } else {
                    if names.len() > 256 {
                        return unsup("enum with more than 256 variants");
                    }
                    let a = atom(
                        key,
                        names.len(),
                        Labels::Names(Rc::new(names.iter().map(|n| n.1.clone()).collect())),
                    );
                    tab(a, names.iter().map(|n| n.0 as u128).collect())
                };
                Val::En(Rc::new(EnumV { disc, vars }))
            }
            ty::Adt(adt, args) if adt.is_struct() => {
                if self.path(adt.did()).ends_with("::ffi::os_str::OsString") {
                    return unsup("symbolic OsString");
                }
                let v = VariantIdx::from_u32(0);
                let tys = self.field_tys(*adt, v, args);
                let mut fs = vec![];
                for (k, ft) in tys.iter().enumerate() {
                    let n = adt.variant(v).fields[FieldIdx::from_usize(k)].name;
                    fs.push(self.sym(st, *ft, &format!("{key}.{n}"))?);
                }
                match self.transparent(t) {
                    Some(f) if f != u32::MAX => fs[f as usize].clone(),
                    Some(_) => return unsup("symbolic union"),
                    None => agg(fs),
                }
            }
            ty::Tuple(ts) => {
                let mut fs = vec![];
                for (k, ft) in ts.iter().enumerate() {
                    fs.push(self.sym(st, ft, &format!("{key}.{k}"))?);
                }
                agg(fs)
            }
            ty::Array(e, n) => {
                let n = self.usize_const(*n)?;
                let mut fs = vec![];
                for k in 0..n {
                    fs.push(self.sym(st, *e, &format!("{key}[{k}]"))?);
                }
                agg(fs)
            }
            ty::Ref(_, inner, _) => {
                let is_bytes = match inner.kind() {
                    ty::Str => true,
                    ty::Slice(e) => matches!(e.kind(), ty::Uint(ty::UintTy::U8)),
                    _ => false,
                };
                if is_bytes {
                    // lengths 0..=LMAX individually, all longer ones as one class
                    let mut names: Vec<String> = (0..=LMAX).map(|x| x.to_string()).collect();
                    names.push(format!(">{LMAX}"));
                    let a = atom(&format!("{key}.len"), LMAX + 2, Labels::Names(Rc::new(names)));
                    let d = st.dom(a);
                    let mut long = [0; 4];
                    crate::sc::add(&mut long, LMAX + 1);
                    if has(&d, LMAX + 1) && card(&d) > 1 {
                        return Err(E::Need(a, vec![minus(&d, &long), long]));
                    }
                    let len = if has(&d, LMAX + 1) {
                        let u = self.fresh_unk(LMAX as u128 + 1, i64::MAX as u128);
                        if let Sc::Unk(i, ..) = u {
                            self.long_lens.insert(i);
                        }
                        u
                    } else {
                        Sc::Tab(a, (0..LMAX as u128 + 2).collect::<Vec<_>>().into())
                    };
                    let p = st.alloc(Val::SymBytes(key.into()));
                    Val::P(Rc::new(PtrV { base: p.base, path: vec![PE::I(0)], meta: Meta::Len(len) }))
                } else {
                    let v = self.sym(st, *inner, &format!("*{key}"))?;
                    Val::P(Rc::new(st.alloc(v)))
                }
            }
            ty::Param(_) | ty::Alias(..) => Val::Opq(key.into()),
            ty::FnDef(..) => unit(),
            ty::Pat(b, _) => self.sym(st, *b, key)?,
            _ => return unsup(format!("symbolic value of type {t}")),
        })
    }

    /// text naming a value inside terms
    pub fn key(&mut self, st: &State<'tcx>, v: &Val<'tcx>) -> R<String> {
        Ok(match v {
            Val::Opq(t) => t.to_string(),
            Val::S(s) => match simp(s, st) {
                Sc::C(x) => x.to_string(),
                Sc::Tab(a, t) if t.len() == 2 && t[0] == 0 && t[1] == 1 => atom_name(a),
                o => format!("{o:?}"),
            },
            Val::Agg(a) => {
                let mut s = vec![];
                for x in a.iter() {
                    s.push(self.key(st, x)?);
                }
                format!("({})", s.join(","))
            }
            Val::En(e) => {
                let d = simp(&e.disc, st);
                let mut s = vec![];
                for (i, f) in &e.vars {
                    if let Sc::C(c) = d {
                        if c != *i as u128 {
                            continue;
                        }
                    }
                    for x in f {
                        s.push(format!("{i}:{}", self.key(st, x)?));
                    }
                }
                format!("v{d:?}[{}]", s.join(","))
            }
            Val::P(p) => {
                if let Meta::Len(_) = p.meta {
                    return Ok(format!("slice{p:?}"));
                }
                let x = self.read(st, p)?;
                self.key(st, &x)?
            }
            o => format!("{o:?}"),
        })
    }

    // ---------------------------------------------------------------- machine
    pub fn push_frame(
        &mut self,
        st: &mut State<'tcx>,
        inst: Instance<'tcx>,
        body: Rc<Body<'tcx>>,
        args: Vec<Val<'tcx>>,
        ret: Option<(PtrV<'tcx>, Option<BasicBlock>)>,
        site_span: Span,
    ) -> R<()> {
        if st.frames.len() > 200 {
            return unsup("call depth");
        }
        let d = inst.def_id();
        if self.seen_fn.insert(d) {
            let p = self.path(d);
            self.fns.insert(p.to_string());
        }
        let base = st.objs.len() as u32;
        let n = body.local_decls.len();
        let mut vals: Vec<Rc<Val<'tcx>>> = Vec::with_capacity(n);
        thread_local!(static UN: () = ());
        let un = Rc::new(Val::Uninit);
        vals.push(un.clone());
        if let Some(sp) = body.spread_arg {
            let k = sp.as_usize();
            let mut args = args;
            let rest = args.split_off(k - 1);
            for a in args {
                vals.push(Rc::new(a));
            }
            vals.push(Rc::new(agg(rest)));
        } else {
            if args.len() != body.arg_count {
                return unsup(format!("arity of {}: {} != {}", self.path(d), args.len(), body.arg_count));
            }
            for a in args {
                vals.push(Rc::new(a));
            }
        }
        while vals.len() < n {
            vals.push(un.clone());
        }
        st.objs.extend(vals);
        st.frames.push(Frame { body, inst, bb: START_BLOCK, stmt: 0, base, ret, native: None, site_span, fails: vec![] });
        Ok(())
    }

    /// nearest frame that belongs to the analysed crate
    pub fn site(&self, st: &State<'tcx>) -> Option<Site> {
        for f in st.frames.iter().rev() {
            if f.native.is_some() {
                continue;
            }
            let d = f.inst.def_id();
            if crate::in_colorz(self.tcx, d) {
                return Some((d, self.cur_span(f)));
            }
        }
        None
    }
    fn cur_span(&self, f: &Frame<'tcx>) -> Span {
        let b = &f.body.basic_blocks[f.bb];
        if f.stmt < b.statements.len() {
            b.statements[f.stmt].source_info.span
        } else {
            b.terminator().source_info.span
        }
    }

    pub fn step(&mut self, st: &mut State<'tcx>) -> R<()> {
        self.stats.steps += 1;
        let top = st.frames.len() - 1;
        if let Some((d, n)) = st.other_frame {
            if top < d {
                st.other_frame = None;
            } else {
                // a thread that does not get on waits for the interrupted one: it cannot run here as a whole
                if let Some(n) = n {
                    if n > 200_000 {
                        self.stats.retries += 1;
                        return Err(E::Dead);
                    }
                    st.other_frame = Some((d, Some(n + 1)));
                }
            }
        }
        if st.frames[top].native.is_some() {
            return self.step_native(st);
        }
        let fr = st.frames[top].clone();
        let block = &fr.body.basic_blocks[fr.bb];
        if fr.stmt < block.statements.len() {
            let s = &block.statements[fr.stmt];
            self.statement(st, &fr, &s.kind)?;
            st.frames[top].stmt += 1;
            return Ok(());
        }
        self.terminator(st, &fr, block.terminator())
    }

    fn statement(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, k: &StatementKind<'tcx>) -> R<()> {
        match k {
            StatementKind::Assign(b) => {
                let (pl, rv) = &**b;
                let v = self.rvalue(st, fr, rv, *pl)?;
                let p = self.place(st, fr, *pl)?;
                self.write(st, &p, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(st, fr, **place)?;
                let v = self.read(st, &p)?;
                let vars = match v {
                    Val::En(e) => e.vars.clone(),
                    _ => vec![],
                };
                let mut vars = vars;
                if !vars.iter().any(|x| x.0 == variant_index.as_u32()) {
                    vars.push((variant_index.as_u32(), vec![]));
                }
                self.write(st, &p, Val::En(Rc::new(EnumV { disc: Sc::C(variant_index.as_u32() as u128), vars })))
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => Ok(()),
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let s = self.operand(st, fr, &c.src)?;
                    let d = self.operand(st, fr, &c.dst)?;
                    let n = self.operand(st, fr, &c.count)?;
                    let n = self.int(st, &n)? as u64;
                    self.copy_elems(st, &s, &d, n)
                }
            },
            _ => Ok(()),
        }
    }
    pub fn copy_elems(&mut self, st: &mut State<'tcx>, s: &Val<'tcx>, d: &Val<'tcx>, n: u64) -> R<()> {
        let s = self.ptr(s)?.clone();
        let d = self.ptr(d)?.clone();
        let mut vals = vec![];
        for i in 0..n {
            let p = elem(&s, i)?;
            vals.push(self.read(st, &p)?);
        }
        for (i, v) in vals.into_iter().enumerate() {
            let p = elem(&d, i as u64)?;
            self.write(st, &p, v)?;
        }
        Ok(())
    }

    pub fn discr_of(&mut self, st: &State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> R<Sc> {
        match v {
            Val::En(e) => {
                let d = simp(&e.disc, st);
                let ty::Adt(adt, _) = t.kind() else { return unsup(format!("discriminant of {t}")) };
                let w = {
                    let dt = t.discriminant_ty(self.tcx);
                    int_info(self.tcx, dt).map_or(64, |x| x.0)
                };
                let m: Vec<(u128, u128)> =
                    adt.discriminants(self.tcx).map(|(i, d)| (i.as_u32() as u128, d.val & mask(w))).collect();
                if m.iter().all(|(a, b)| a == b) {
                    return Ok(d);
                }
                let f = |x: u128| m.iter().find(|p| p.0 == x).map_or(x, |p| p.1);
                Ok(match d {
                    Sc::C(x) => Sc::C(f(x)),
                    Sc::Tab(a, tb) => tab(a, tb.iter().map(|x| f(*x)).collect()),
                    o => {
                        let k = self.konst(st, &o)?;
                        Sc::C(f(k))
                    }
                })
            }
            _ if !t.is_enum() => Ok(Sc::C(0)),
            _ => unsup(format!("discriminant of {v:?}: {t}")),
        }
    }

    fn rvalue(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, rv: &Rvalue<'tcx>, _dst: Place<'tcx>) -> R<Val<'tcx>> {
        match rv {
            Rvalue::Use(o, _) => self.operand(st, fr, o),
            Rvalue::CopyForDeref(p) => self.read_place(st, fr, *p),
            Rvalue::ThreadLocalRef(d) => {
                let d = *d;
                if st.other_frame.is_none() {
                    return Ok(Val::P(Rc::new(PtrV { base: Base::Static(d), path: vec![], meta: Meta::None })));
                }
                if let Some(x) = st.other_tls.iter().find(|x| x.0 == d) {
                    return Ok(Val::P(Rc::new(x.1.clone())));
                }
                let v = self.static_value(d)?;
                let p = st.alloc(v);
                st.other_tls.push((d, p.clone()));
                Ok(Val::P(Rc::new(p)))
            }
            Rvalue::Reborrow(_, _, p) => self.read_place(st, fr, *p),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, fr, o)?;
                let n = self.usize_const(*n)?;
                Ok(agg(vec![v; n as usize]))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let q = self.place(st, fr, *p)?;
                Ok(Val::P(Rc::new(q)))
            }
            Rvalue::Cast(k, o, t) => {
                let v = self.operand(st, fr, o)?;
                let from = o.ty(&fr.body.local_decls, self.tcx);
                self.cast(st, *k, v, from, *t)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(st, fr, &ab.0)?;
                let b = self.operand(st, fr, &ab.1)?;
                let t = ab.0.ty(&fr.body.local_decls, self.tcx);
                self.binop(st, *op, a, b, t)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, fr, o)?;
                let t = o.ty(&fr.body.local_decls, self.tcx);
                match op {
                    UnOp::PtrMetadata => match &self.ptr(&v)?.meta {
                        Meta::Len(s) => Ok(Val::S(s.clone())),
                        Meta::None => Ok(unit()),
                        _ => unsup("vtable metadata"),
                    },
                    UnOp::Not | UnOp::Neg => {
                        let (w, sg) = match int_info(self.tcx, t) {
                            Some(x) => x,
                            None => return unsup("unary op type"),
                        };
                        let s = self.sc(st, &v)?;
                        let op = if matches!(op, UnOp::Not) { Op::Not } else { Op::Neg };
                        Ok(Val::S(mk(op, w, sg, s, Sc::C(0), st)))
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                self.note_read(st, fr, *p);
                let v = self.read_place(st, fr, *p)?;
                let t = p.ty(&fr.body.local_decls, self.tcx).ty;
                let s = self.discr_of(st, &v, t)?;
                Ok(Val::S(s))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vals = vec![];
                for o in ops.iter() {
                    vals.push(self.operand(st, fr, o)?);
                }
                match &**k {
                    AggregateKind::Array(_) | AggregateKind::Tuple | AggregateKind::Closure(..) => Ok(agg(vals)),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let adt = self.tcx.adt_def(*d);
                        if active.is_some() {
                            return Ok(vals.pop().unwrap());
                        }
                        if adt.is_enum() {
                            return Ok(Val::En(Rc::new(EnumV {
                                disc: Sc::C(vi.as_u32() as u128),
                                vars: vec![(vi.as_u32(), vals)],
                            })));
                        }
                        let t = Ty::new_adt(self.tcx, adt, args);
                        match self.transparent(t) {
                            Some(f) if f != u32::MAX => Ok(vals[f as usize].clone()),
                            _ => Ok(agg(vals)),
                        }
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let p = self.ptr(&vals[0])?;
                        let mut q = (**p).clone();
                        match t.kind() {
                            ty::Slice(_) | ty::Str => {
                                let l = self.sc(st, &vals[1])?;
                                if !matches!(q.path.last(), Some(PE::I(_))) {
                                    Self::push_idx(&mut q.path, 0);
                                }
                                q.meta = Meta::Len(l);
                            }
                            _ => (),
                        }
                        Ok(Val::P(Rc::new(q)))
                    }
                    _ => unsup("aggregate kind"),
                }
            }
            _ => unsup(format!("rvalue {rv:?}")),
        }
    }

    fn cast(&mut self, st: &mut State<'tcx>, k: CastKind, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val<'tcx>> {
        match k {
            CastKind::IntToInt => {
                let s = match &v {
                    Val::En(_) => self.discr_of(st, &v, from)?,
                    _ => self.sc(st, &v)?,
                };
                let (w, sg) = match int_info(self.tcx, from) {
                    Some(x) => x,
                    None if from.is_enum() => {
                        let dt = from.discriminant_ty(self.tcx);
                        int_info(self.tcx, dt).unwrap()
                    }
                    None => return unsup("cast source"),
                };
                let Some((tw, _)) = int_info(self.tcx, to) else { return unsup("cast target") };
                Ok(Val::S(mk(Op::Cast, w, sg, s, Sc::C(tw as u128), st)))
            }
            CastKind::PtrToPtr => self.ptr_cast(v, from, to),
            CastKind::Subtype => Ok(v),
            CastKind::PointerCoercion(c, _) => match c {
                PointerCoercion::ReifyFnPointer(..) => {
                    let ty::FnDef(d, args) = from.kind() else { return unsup("reify") };
                    let args = self.norm(args.no_bound_vars().unwrap());
                    match Instance::try_resolve(self.tcx, self.env, *d, args) {
                        Ok(Some(i)) => Ok(Val::Fn(i)),
                        // an unresolved trait method: keep the trait item itself
                        Ok(None) => Ok(Val::Fn(Instance::new_raw(*d, args))),
                        Err(_) => unsup("reify"),
                    }
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let ty::Closure(d, args) = from.kind() else { return unsup("closure fn pointer") };
                    Ok(Val::Fn(Instance::resolve_closure(self.tcx, *d, args, ty::ClosureKind::FnOnce)))
                }
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer => Ok(v),
                PointerCoercion::ArrayToPointer => {
                    let mut q = (**self.ptr(&v)?).clone();
                    Self::push_idx(&mut q.path, 0);
                    Ok(Val::P(Rc::new(q)))
                }
                PointerCoercion::Unsize => {
                    let mut q = (**self.ptr(&v)?).clone();
                    let (Some(sp), Some(tp)) = (from.builtin_deref(true), to.builtin_deref(true)) else {
                        return unsup(format!("unsize {from} -> {to}"));
                    };
                    match (sp.kind(), tp.kind()) {
                        (ty::Array(_, n), ty::Slice(_)) => {
                            let n = self.usize_const(*n)?;
                            Self::push_idx(&mut q.path, 0);
                            q.meta = Meta::Len(Sc::C(n as u128));
                        }
                        (_, ty::Dynamic(..)) => {
                            if !matches!(q.meta, Meta::Vt(_)) {
                                q.meta = Meta::Vt(sp);
                            }
                        }
                        (ty::Adt(..), ty::Adt(..)) => {
                            let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(sp, tp, self.env);
                            match (a.kind(), b.kind()) {
                                (ty::Array(_, n), ty::Slice(_)) => {
                                    let n = self.usize_const(*n)?;
                                    q.meta = Meta::Len(Sc::C(n as u128));
                                }
                                _ => return unsup(format!("unsize {from} -> {to}")),
                            }
                        }
                        _ => return unsup(format!("unsize {from} -> {to}")),
                    }
                    Ok(Val::P(Rc::new(q)))
                }
            },
            CastKind::Transmute => self.transmute(st, v, from, to),
            CastKind::PointerExposeProvenance => {
                if let Val::P(p) = &v {
                    if let Base::Dang(x) = p.base {
                        return Ok(con(x as u128));
                    }
                }
                Ok(Val::S(self.fresh_unk(4096, 1 << 46)))
            }
            CastKind::FnPtrToPtr => Ok(v),
            _ => unsup(format!("cast {k:?}")),
        }
    }
    /// a type without parameters that consists of a slice only: pointers to it are casts of slice pointers
    fn wraps_slice(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(a, g) if a.is_struct() && g.types().next().is_none() && a.non_enum_variant().fields.len() == 1 => {
                let f = a.non_enum_variant().fields.iter().next().unwrap();
                let f = self.norm(f.ty(self.tcx, g).skip_norm_wip());
                matches!(f.kind(), ty::Slice(_) | ty::Str) || self.wraps_slice(f)
            }
            _ => false,
        }
    }
    pub fn ptr_cast(&mut self, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val<'tcx>> {
        let Val::P(p) = &v else { return Ok(v) };
        let pointee = |t: Ty<'tcx>| -> Option<Ty<'tcx>> {
            t.builtin_deref(true).or_else(|| match t.kind() {
                ty::Adt(_, a) => a.types().next(),
                _ => None,
            })
        };
        let (Some(s), Some(d)) = (pointee(from), pointee(to)) else { return Ok(v) };
        let mut q = (**p).clone();
        let strip = |t: Ty<'tcx>| t;
        let (s, d) = (strip(s), strip(d));
        match (s.kind(), d.kind()) {
            (ty::Slice(_) | ty::Str, ty::Slice(_) | ty::Str) => (),
            (ty::Slice(_) | ty::Str, ty::Array(_, n)) => {
                let n = self.usize_const(*n)?;
                if let Some(PE::I(k)) = q.path.last().cloned() {
                    q.path.pop();
                    q.path.push(PE::Sub(k, n));
                }
                q.meta = Meta::None;
            }
            // a wrapper around a slice (`OsStr` and the like)
            (ty::Slice(_) | ty::Str, ty::Adt(..)) if self.wraps_slice(d) => (),
            (ty::Slice(_) | ty::Str, _) => q.meta = Meta::None,
            (ty::Array(..), ty::Array(..)) => (),
            (ty::Array(e, _), _) => {
                if *e == d || self.is_same_repr(*e, d) {
                    Self::push_idx(&mut q.path, 0);
                }
            }
            (_, ty::Array(e, n)) => {
                if *e == s || self.is_same_repr(*e, s) {
                    let n = self.usize_const(*n)?;
                    if let Some(PE::I(k)) = q.path.last().cloned() {
                        q.path.pop();
                        q.path.push(PE::Sub(k, n));
                    }
                }
            }
            _ => {
                if matches!(q.meta, Meta::Vt(_)) && !matches!(d.kind(), ty::Dynamic(..)) {
                    q.meta = Meta::None;
                }
                if let (Some((a, _)), Some((b, _))) = (int_info(self.tcx, s), int_info(self.tcx, d)) {
                    if a != b {
                        return unsup(format!("pointer cast {from} -> {to}"));
                    }
                }
            }
        }
        Ok(Val::P(Rc::new(q)))
    }
    fn peel(&mut self, mut t: Ty<'tcx>) -> Ty<'tcx> {
        loop {
            match (self.transparent(t), t.kind()) {
                (Some(f), ty::Adt(adt, args)) => {
                    let tys = self.field_tys(*adt, VariantIdx::from_u32(0), args);
                    if f == u32::MAX {
                        match tys.iter().find(|t| !self.is_zst(**t)) {
                            Some(x) => t = *x,
                            None => return t,
                        }
                    } else {
                        t = tys[f as usize];
                    }
                }
                _ => return t,
            }
        }
    }
    fn is_same_repr(&mut self, a: Ty<'tcx>, b: Ty<'tcx>) -> bool {
        self.peel(a) == self.peel(b)
    }

    pub fn transmute(&mut self, st: &mut State<'tcx>, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val<'tcx>> {
        let f = self.peel(from);
        let t = self.peel(to);
        if f == t {
            return Ok(v);
        }
        if let Val::P(_) = &v {
            return self.ptr_cast(v, f, t);
        }
        let fi = int_info(self.tcx, f);
        let ti = int_info(self.tcx, t);
        if fi.is_some() && ti.is_some() {
            return Ok(v);
        }
        // integer -> enum
        if let (Some((w, _)), ty::Adt(adt, args)) = (fi, t.kind()) {
            if adt.is_enum() {
                let s = self.sc(st, &v)?;
                if adt.variants().iter().all(|v| v.fields.is_empty()) {
                    let m: Vec<(u128, u128)> = adt
                        .discriminants(self.tcx)
                        .map(|(i, d)| (d.val & mask(w), i.as_u32() as u128))
                        .collect();
                    let f = |x: u128| m.iter().find(|p| p.0 == x).map(|p| p.1);
                    let s = match &s {
                        Sc::C(_) | Sc::Tab(..) => s,
                        o => Sc::C(self.konst(st, o)?),
                    };
                    let disc = match &s {
                        Sc::C(x) => match f(*x) {
                            Some(y) => Sc::C(y),
                            None => return Err(E::Panic("transmute to an invalid enum value".into())),
                        },
                        Sc::Tab(a, tb) => {
                            let dm = st.dom(*a);
                            for i in elems(&dm) {
                                if f(tb[i]).is_none() {
                                    // separate the invalid values
                                    let bad: Vec<usize> = elems(&dm).filter(|i| f(tb[*i]).is_none()).collect();
                                    let mut b = [0; 4];
                                    bad.iter().for_each(|i| crate::sc::add(&mut b, *i));
                                    let good = minus(&dm, &b);
                                    if empty(&good) {
                                        return Err(E::Panic("transmute to an invalid enum value".into()));
                                    }
                                    return Err(E::Need(*a, vec![good, b]));
                                }
                            }
                            tab(*a, tb.iter().map(|x| f(*x).unwrap_or(0)).collect())
                        }
                        _ => unreachable!(),
                    };
                    return Ok(Val::En(Rc::new(EnumV { disc, vars: vec![] })));
                }
                // Option<NonZero>
                if adt.variants().len() == 2 && args.types().next().map_or(false, |p| {
                    let p = self.peel(p);
                    int_info(self.tcx, p).is_some()
                }) {
                    let z = mk(Op::Eq, w, false, s.clone(), Sc::C(0), st);
                    let disc = mk(Op::Xor, 1, false, z, Sc::C(1), st);
                    return Ok(Val::En(Rc::new(EnumV { disc, vars: vec![(0, vec![]), (1, vec![Val::S(s)])] })));
                }
            }
        }
        // enum -> integer
        if let (Val::En(e), Some(_)) = (&v, ti) {
            if e.vars.iter().all(|x| x.1.is_empty()) {
                return Ok(Val::S(self.discr_of(st, &v, f)?));
            }
            if self.konst(st, &e.disc)? == 0 {
                return Ok(con(0));
            }
            if let Some(x) = e.vars.iter().find(|x| x.0 == 1) {
                return Ok(x.1[0].clone());
            }
        }
        // byte arrays <-> integers (little endian target)
        if let (ty::Array(_, _), Some((_, _))) = (f.kind(), ti) {
            let Val::Agg(a) = &v else { return unsup("transmute array") };
            let mut bits = vec![];
            for x in a.iter() {
                let s = self.sc(st, x)?;
                match to_bits(&s, 8) {
                    Some(b) => bits.extend(b),
                    None => {
                        let k = self.konst(st, &s)?;
                        bits.extend(to_bits(&Sc::C(k), 8).unwrap());
                    }
                }
            }
            return Ok(Val::S(from_bits(bits, st)));
        }
        if let (Some((w, _)), ty::Array(..)) = (fi, t.kind()) {
            let s = self.sc(st, &v)?;
            let mut r = vec![];
            for i in 0..w / 8 {
                let x = mk(Op::Shr, w, false, s.clone(), Sc::C(8 * i as u128), st);
                r.push(Val::S(mk(Op::Cast, w, false, x, Sc::C(8), st)));
            }
            return Ok(agg(r));
        }
        // same shape
        match (&v, f.kind(), t.kind()) {
            (Val::Agg(_), ty::Array(..), ty::Array(..)) | (Val::Agg(_), ty::Adt(..), ty::Adt(..)) => Ok(v),
            (Val::Fn(_), _, _) => Ok(v),
            _ => unsup(format!("transmute {from} -> {to}")),
        }
    }

    fn binop(&mut self, st: &mut State<'tcx>, op: BinOp, a: Val<'tcx>, b: Val<'tcx>, t: Ty<'tcx>) -> R<Val<'tcx>> {
        if t.is_any_ptr() || matches!(a, Val::P(_)) {
            return self.ptr_binop(st, op, a, b);
        }
        let (w, sg) = match int_info(self.tcx, t) {
            Some(x) => x,
            None => return unsup(format!("binary op on {t}")),
        };
        let x = self.sc(st, &a)?;
        let y = self.sc(st, &b)?;
        let s = |op, x: Sc, y: Sc| mk(op, w, sg, x, y, st);
        let not = |x: Sc| mk(Op::Xor, 1, false, x, Sc::C(1), st);
        // shift amounts may have another type
        let y = if matches!(op, BinOp::Shl | BinOp::Shr | BinOp::ShlUnchecked | BinOp::ShrUnchecked) {
            match y {
                Sc::C(k) => Sc::C(k % w as u128),
                Sc::Tab(a, tb) => tab(a, tb.iter().map(|k| k % w as u128).collect()),
                o => o,
            }
        } else {
            y
        };
        Ok(Val::S(match op {
            BinOp::Add | BinOp::AddUnchecked => s(Op::Add, x, y),
            BinOp::Sub | BinOp::SubUnchecked => s(Op::Sub, x, y),
            BinOp::Mul | BinOp::MulUnchecked => s(Op::Mul, x, y),
            BinOp::AddWithOverflow => {
                return Ok(agg(vec![Val::S(s(Op::Add, x.clone(), y.clone())), Val::S(s(Op::AddO, x, y))]))
            }
            BinOp::SubWithOverflow => {
                return Ok(agg(vec![Val::S(s(Op::Sub, x.clone(), y.clone())), Val::S(s(Op::SubO, x, y))]))
            }
            BinOp::MulWithOverflow => {
                return Ok(agg(vec![Val::S(s(Op::Mul, x.clone(), y.clone())), Val::S(s(Op::MulO, x, y))]))
            }
            BinOp::Div => s(Op::Div, x, y),
            BinOp::Rem => s(Op::Rem, x, y),
            BinOp::BitAnd => s(Op::And, x, y),
            BinOp::BitOr => s(Op::Or, x, y),
            BinOp::BitXor => s(Op::Xor, x, y),
            BinOp::Shl | BinOp::ShlUnchecked => s(Op::Shl, x, y),
            BinOp::Shr | BinOp::ShrUnchecked => s(Op::Shr, x, y),
            BinOp::Eq => s(Op::Eq, x, y),
            BinOp::Ne => not(s(Op::Eq, x, y)),
            BinOp::Lt => s(Op::Lt, x, y),
            BinOp::Le => s(Op::Le, x, y),
            BinOp::Gt => s(Op::Lt, y, x),
            BinOp::Ge => s(Op::Le, y, x),
            BinOp::Cmp => {
                let le = mk(Op::Cast, 1, false, s(Op::Le, y.clone(), x.clone()), Sc::C(8), st);
                let lt = mk(Op::Cast, 1, false, s(Op::Lt, y, x), Sc::C(8), st);
                let d = mk(Op::Add, 8, false, le, lt, st);
                return Ok(Val::En(Rc::new(EnumV { disc: d, vars: vec![] })));
            }
            BinOp::Offset => return unsup("offset of a non-pointer"),
        }))
    }
    fn ptr_binop(&mut self, st: &mut State<'tcx>, op: BinOp, a: Val<'tcx>, b: Val<'tcx>) -> R<Val<'tcx>> {
        if let BinOp::Offset = op {
            let k = self.int(st, &b)?;
            return self.ptr_add(&a, sext(k, 64) as i64);
        }
        let p = self.ptr(&a)?.clone();
        let q = self.ptr(&b)?.clone();
        let same_root = p.base == q.base;
        let eq = if same_root {
            let (pa, ia) = split_idx(&p.path);
            let (pb, ib) = split_idx(&q.path);
            if pa == pb {
                match op {
                    BinOp::Lt => return Ok(con((ia < ib) as u128)),
                    BinOp::Le => return Ok(con((ia <= ib) as u128)),
                    BinOp::Gt => return Ok(con((ia > ib) as u128)),
                    BinOp::Ge => return Ok(con((ia >= ib) as u128)),
                    _ => ia == ib,
                }
            } else {
                return unsup("comparison of unrelated pointers");
            }
        } else {
            false
        };
        match op {
            BinOp::Eq => Ok(con(eq as u128)),
            BinOp::Ne => Ok(con(!eq as u128)),
            _ => unsup("pointer comparison"),
        }
    }
    pub fn ptr_add(&mut self, p: &Val<'tcx>, k: i64) -> R<Val<'tcx>> {
        let mut q = (**self.ptr(p)?).clone();
        if k == 0 {
            return Ok(Val::P(Rc::new(q)));
        }
        match q.path.last_mut() {
            Some(PE::I(i)) => {
                let n = *i as i64 + k;
                if n < 0 {
                    return unsup("pointer before its array");
                }
                *i = n as u64;
                Ok(Val::P(Rc::new(q)))
            }
            _ => {
                if k > 0 {
                    q.path.push(PE::I(k as u64));
                    Ok(Val::P(Rc::new(q)))
                } else {
                    unsup("pointer arithmetic outside an array")
                }
            }
        }
    }

    fn goto(&self, st: &mut State<'tcx>, bb: BasicBlock) {
        let f = st.frames.last_mut().unwrap();
        f.bb = bb;
        f.stmt = 0;
    }

    fn terminator(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>, t: &Terminator<'tcx>) -> R<()> {
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                self.goto(st, *target);
                Ok(())
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                self.goto(st, *real_target);
                Ok(())
            }
            TerminatorKind::Drop { target, .. } => {
                self.goto(st, *target);
                Ok(())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, fr, discr)?;
                let s = self.sc(st, &v)?;
                let bb = match &s {
                    Sc::C(x) => targets.target_for_value(*x),
                    Sc::Tab(a, tb) => {
                        let p = partition(*a, st, |i| targets.target_for_value(tb[i]).as_u32() as u128);
                        if p.len() == 1 {
                            let dm = st.dom(*a);
                            let i = elems(&dm).next().unwrap();
                            targets.target_for_value(tb[i])
                        } else {
                            return Err(E::Need(*a, p));
                        }
                    }
                    o => {
                        let t = discr.ty(&fr.body.local_decls, self.tcx);
                        let w = int_info(self.tcx, t).map_or(64, |x| x.0);
                        let mut hit = None;
                        for (v, bb) in targets.iter() {
                            let e = mk(Op::Eq, w, false, o.clone(), Sc::C(v), st);
                            let e = simp(&e, st);
                            match e {
                                Sc::C(0) => continue,
                                Sc::C(_) => {
                                    hit = Some(bb);
                                    break;
                                }
                                e => {
                                    // wide packed constants: decide this arm first
                                    if let Sc::Ex(x) = &e {
                                        if x.op == Op::Eq && matches!(x.a, Sc::Bits(_)) {
                                            self.decide(st, &e)?;
                                        }
                                    }
                                    if let Sc::Tab(..) = &e {
                                        self.decide(st, &e)?;
                                    }
                                    self.konst(st, o)?;
                                    return unsup("switch");
                                }
                            }
                        }
                        hit.unwrap_or(targets.otherwise())
                    }
                };
                self.goto(st, bb);
                Ok(())
            }
            TerminatorKind::Return => {
                let v = self.read(st, &PtrV { base: Base::Stack(fr.base), path: vec![], meta: Meta::None })?;
                let v = if let Val::Uninit = v {
                    let t = fr.body.local_decls[RETURN_PLACE].ty;
                    if self.is_zst(t) {
                        self.zst(t)?
                    } else {
                        v
                    }
                } else {
                    v
                };
                let f = st.frames.pop().unwrap();
                // stack objects that a constant initialiser refers to outlive its frame
                if st.frames.is_empty() {
                    let mut memo = HashMap::new();
                    let v = self.heapify(st, &v, &mut memo)?;
                    st.objs.truncate(f.base as usize);
                    st.result = Some(v);
                    return Ok(());
                }
                st.objs.truncate(f.base as usize);
                if let Some((p, bb)) = &f.ret {
                    self.write(st, p, v)?;
                    match bb {
                        Some(bb) => self.goto(st, *bb),
                        None => {
                            if st.frames.last().unwrap().native.is_none() {
                                return Err(E::Panic("call returned where it must not".into()));
                            }
                        }
                    }
                }
                Ok(())
            }
            TerminatorKind::Unreachable => Err(E::Panic("unreachable code reached (undefined behaviour)".into())),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(st, fr, cond)?;
                let s = self.sc(st, &v)?;
                self.stats.panics_sites += 1;
                let c = self.decide(st, &s)?;
                if c == *expected {
                    self.goto(st, *target);
                    Ok(())
                } else {
                    Err(E::Panic(assert_name(msg)))
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                self.stats.calls += 1;
                let mut vals = vec![];
                for a in args.iter() {
                    vals.push(self.operand(st, fr, &a.node)?);
                }
                let dest = self.place(st, fr, *destination)?;
                let ret_ty = destination.ty(&fr.body.local_decls, self.tcx).ty;
                let fty = func.ty(&fr.body.local_decls, self.tcx);
                match fty.kind() {
                    ty::FnDef(d, gargs) => {
                        let gargs = self.norm(gargs.no_bound_vars().unwrap());
                        let abi = self.tcx.fn_sig(*d).skip_binder().abi();
                        if abi == rustc_abi::ExternAbi::RustCall {
                            let last = vals.pop();
                            if let Some(Val::Agg(a)) = last {
                                vals.extend(a.iter().cloned());
                            } else if let Some(l) = last {
                                return unsup(format!("rust-call argument {l:?}"));
                            }
                        }
                        crate::models::call(self, st, *d, gargs, vals, dest, *target, ret_ty, t.source_info.span)
                    }
                    ty::FnPtr(..) => {
                        let f = self.operand(st, fr, func)?;
                        let Val::Fn(i) = f else { return unsup(format!("call through {f:?}")) };
                        crate::models::call_instance(self, st, i, vals, dest, *target, ret_ty, t.source_info.span)
                    }
                    _ => unsup(format!("call of {fty}")),
                }
            }
            k => unsup(format!("terminator {k:?}")),
        }
    }

    /// move stack objects reachable from `v` to the heap
    fn heapify(&mut self, st: &mut State<'tcx>, v: &Val<'tcx>, memo: &mut HashMap<u32, u32>) -> R<Val<'tcx>> {
        Ok(match v {
            Val::Agg(a) => {
                let mut r = vec![];
                for x in a.iter() {
                    r.push(self.heapify(st, x, memo)?);
                }
                agg(r)
            }
            Val::En(e) => {
                let mut vars = vec![];
                for (i, f) in &e.vars {
                    let mut r = vec![];
                    for x in f {
                        r.push(self.heapify(st, x, memo)?);
                    }
                    vars.push((*i, r));
                }
                Val::En(Rc::new(EnumV { disc: e.disc.clone(), vars }))
            }
            Val::P(p) => {
                if let Base::Stack(i) = p.base {
                    let h = match memo.get(&i) {
                        Some(h) => *h,
                        None => {
                            let inner = st.objs[i as usize].clone();
                            let w = self.heapify(st, &inner, memo)?;
                            let q = st.alloc(w);
                            let Base::Heap(h) = q.base else { unreachable!() };
                            memo.insert(i, h);
                            h
                        }
                    };
                    Val::P(Rc::new(PtrV { base: Base::Heap(h), path: p.path.clone(), meta: p.meta.clone() }))
                } else {
                    v.clone()
                }
            }
            o => o.clone(),
        })
    }

    pub fn finish_call(&mut self, st: &mut State<'tcx>, dest: &PtrV<'tcx>, target: Option<BasicBlock>, v: Val<'tcx>) -> R<()> {
        self.write(st, dest, v)?;
        match target {
            Some(t) => {
                self.goto(st, t);
                Ok(())
            }
            None => Err(E::Panic("diverging call".into())),
        }
    }

    // ---------------------------------------------------------------- native frames (format_args)
    fn step_native(&mut self, st: &mut State<'tcx>) -> R<()> {
        let top = st.frames.len() - 1;
        let n = st.frames[top].native.clone().unwrap();
        // result of the previous piece
        let prev = (*st.objs[n.slot as usize]).clone();
        if let Val::En(e) = &prev {
            if self.konst(st, &e.disc)? == 1 {
                return self.native_return(st, prev);
            }
        }
        if n.i >= n.pieces.len() {
            return self.native_return(st, fmt_ok());
        }
        let piece = n.pieces[n.i].clone();
        let next = NativeState { pieces: n.pieces.clone(), i: n.i + 1, sink: n.sink, slot: n.slot };
        match piece {
            Piece::Lit(s) => {
                let site = self.site(st);
                let r = self.emit(st, n.sink, Ev::Str(s), site)?;
                st.objs[n.slot as usize] = Rc::new(r);
                st.frames[top].native = Some(Rc::new(next));
                Ok(())
            }
            Piece::Ev(e) => {
                let site = self.site(st);
                let r = self.emit(st, n.sink, e, site)?;
                st.objs[n.slot as usize] = Rc::new(r);
                st.frames[top].native = Some(Rc::new(next));
                Ok(())
            }
            Piece::Arg { val, ty, tr, opts } => {
                let f = st.alloc(Val::Fmtr(n.sink, opts));
                let d = match crate::trait_method(self.tcx, &tr, "fmt") {
                    Some(d) => d,
                    None => return unsup(format!("format trait {tr}")),
                };
                let gargs = self.tcx.mk_args(&[ty.into()]);
                let dest = PtrV { base: Base::Stack(n.slot), path: vec![], meta: Meta::None };
                let mut save = st.clone();
                save.frames[top].native = Some(Rc::new(next));
                let span = save.frames[top].site_span;
                let rt = self.fmt_result_ty();
                crate::models::call(self, &mut save, d, gargs, vec![val, Val::P(Rc::new(f))], dest, None, rt, span)?;
                *st = save;
                Ok(())
            }
        }
    }
    pub fn fmt_result_ty(&mut self) -> Ty<'tcx> {
        let d = crate::trait_method(self.tcx, "core::fmt::Display", "fmt").unwrap();
        let s = self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip().output().skip_binder();
        self.norm(s)
    }
    fn native_return(&mut self, st: &mut State<'tcx>, v: Val<'tcx>) -> R<()> {
        let f = st.frames.pop().unwrap();
        st.objs.truncate(f.base as usize);
        if let Some((p, bb)) = &f.ret {
            self.write(st, p, v)?;
            if let Some(bb) = bb {
                self.goto(st, *bb);
            }
        }
        Ok(())
    }

    /// record an output event; in failing mode the writer may report an error instead
    pub fn emit(&mut self, st: &mut State<'tcx>, sink: u32, ev: Ev, site: Option<Site>) -> R<Val<'tcx>> {
        let s = &st.sinks[sink as usize];
        if s.failing {
            if s.failed {
                let s = &mut st.sinks[sink as usize];
                if !s.after {
                    s.after = true;
                    s.after_site = site;
                }
                return Ok(fmt_err());
            }
            let n = s.log.len();
            let a = atom(&format!("writer error at write #{n}"), 2, Labels::Bool);
            let d = st.dom(a);
            if card(&d) > 1 {
                return Err(E::Need(a, partition(a, st, |i| i as u128)));
            }
            if has(&d, 1) {
                st.sinks[sink as usize].failed = true;
                return Ok(fmt_err());
            }
        }
        let s = &mut st.sinks[sink as usize];
        Rc::make_mut(&mut s.log).push((ev, site));
        Ok(fmt_ok())
    }

    // ---------------------------------------------------------------- driver loop
    fn late(&mut self) -> bool {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs());
        if now > self.until {
            self.errors.insert("time limit reached".into());
            return true;
        }
        // resident pages
        let pages = std::fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|t| t.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
            .unwrap_or(0);
        if pages > 600_000 {
            self.errors.insert("memory limit reached".into());
            return true;
        }
        false
    }
    pub fn run(&mut self, init: State<'tcx>) {
        let mut work = vec![init];
        while let Some(mut st) = work.pop() {
            self.stats.states += 1;
            let mut ticks = 0u32;
            if self.stats.states & 0xff == 0 && self.late() {
                return;
            }
            loop {
                ticks += 1;
                if ticks & 0xffff == 0 && self.late() {
                    return;
                }
                if self.stats.steps > self.max_steps {
                    self.errors.insert("step limit reached".into());
                    return;
                }
                if st.frames.is_empty() {
                    self.stats.finished += 1;
                    if self.keep_finals {
                        self.finals.push(st);
                    }
                    break;
                }
                match self.step(&mut st) {
                    Ok(()) => (),
                    Err(E::Dead) => break,
                    Err(E::Need(a, parts)) => {
                        self.stats.splits += 1;
                        let site = self.site(&st);
                        if let Some((d, sp)) = site {
                            self.sites.insert((d, sp.lo().0));
                        }
                        if self.trace {
                            eprintln!("split {} into {} at {}", atom_name(a), parts.len(), self.where_am_i(&st));
                        }
                        let n = parts.len();
                        let cur = st.dom(a);
                        if n == 1 && parts[0] == cur {
                            self.errors.insert(format!("no progress splitting {}", atom_name(a)));
                            break;
                        }
                        for p in parts {
                            if empty(&p) {
                                continue;
                            }
                            let mut s2 = st.clone();
                            s2.set_dom(a, p);
                            s2.decs = Some(Rc::new(Dec { site, atom: a, set: p, prev: st.decs.clone() }));
                            work.push(s2);
                        }
                        break;
                    }
                    Err(E::Panic(m)) => {
                        let key = format!("panic: {m}");
                        self.violation(&st, key, "a panic is reachable".into());
                        break;
                    }
                    Err(E::Fail(k, d)) => {
                        self.violation(&st, k, d);
                        break;
                    }
                    Err(E::Unsup(m)) => {
                        let w = self.where_am_i(&st);
                        self.errors.insert(format!("{m} [at {w}]"));
                        break;
                    }
                }
            }
            if self.violations.len() > 40 || self.errors.len() > 20 || (self.viol_seen > 0 && (self.viol_seen > 400 || self.stats.steps > self.viol_steps + 30_000_000)) {
                return;
            }
        }
    }
    pub fn where_am_i(&mut self, st: &State<'tcx>) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(5) {
            if f.native.is_some() {
                continue;
            }
            let p = self.path(f.inst.def_id());
            v.push(format!("{p} ({})", crate::span_str(self.tcx, self.cur_span(f))));
        }
        v.join(" <- ")
    }
    pub fn decisions(&mut self, st: &State<'tcx>) -> Vec<String> {
        let mut out = vec![];
        let mut d = st.decs.clone();
        let mut seen = HashSet::new();
        while let Some(x) = d {
            if seen.insert(x.atom) {
                let w = x
                    .site
                    .map(|(f, s)| format!("   [{} at {}]", self.path(f), crate::span_str(self.tcx, s)))
                    .unwrap_or_default();
                out.push(format!("{} = {}{}", atom_name(x.atom), show_set(x.atom, &st.dom(x.atom)), w));
            }
            d = x.prev.clone();
        }
        out.reverse();
        out
    }
    fn violation(&mut self, st: &State<'tcx>, key: String, detail: String) {
        // a broken rule is broken: the rest of this entry point is explored for a while only
        if self.viol_seen == 0 {
            self.viol_steps = self.stats.steps;
        }
        self.viol_seen += 1;
        if self.violations.iter().filter(|v| v.key == key).count() >= 3 {
            return;
        }
        let mut t = String::new();
        t.push_str(&format!("rule: {key}\n"));
        if !detail.is_empty() {
            t.push_str(&format!("{detail}\n"));
        }
        if !st.diag.is_empty() {
            t.push_str(&format!("{}\n", st.diag));
        }
        t.push_str(&format!("at: {}\n", self.where_am_i(st)));
        if let Some((d, s)) = self.site(st) {
            t.push_str(&format!("construct: {} at {}\n", self.path(d), crate::span_str(self.tcx, s)));
        }
        t.push_str("path through the code (condition = value set [deciding construct]):\n");
        for d in self.decisions(st) {
            t.push_str(&format!("  {d}\n"));
        }
        for (i, s) in st.sinks.iter().enumerate() {
            t.push_str(&format!("output #{i}: {}\n", crate::outlog::show(self, st, i)));
            let mut w: Vec<String> = s
                .log
                .iter()
                .filter_map(|(_, s)| s.map(|(d, sp)| format!("{} ({})", self.path(d), crate::span_str(self.tcx, sp))))
                .collect();
            w.dedup();
            if !w.is_empty() {
                t.push_str(&format!("  written at: {}\n", w.join(", ")));
            }
        }
        self.violations.push(Violation { key, text: t });
    }
}

pub fn sym_u8<'tcx>(key: &str) -> Val<'tcx> {
    Val::S(Sc::Tab(atom(key, 256, Labels::Byte), (0..256u128).collect::<Vec<_>>().into()))
}
pub fn sym_byte<'tcx>(name: &str, k: u64) -> Val<'tcx> {
    sym_u8(&format!("{name}[{k}]"))
}
pub fn targs<'tcx>(a: GenericArgsRef<'tcx>) -> String {
    a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")
}
pub fn fmt_ok<'tcx>() -> Val<'tcx> {
    Val::En(Rc::new(EnumV { disc: Sc::C(0), vars: vec![(0, vec![unit()])] }))
}
pub fn fmt_err<'tcx>() -> Val<'tcx> {
    Val::En(Rc::new(EnumV { disc: Sc::C(1), vars: vec![(1, vec![unit()])] }))
}
pub fn some<'tcx>(v: Val<'tcx>) -> Val<'tcx> {
    Val::En(Rc::new(EnumV { disc: Sc::C(1), vars: vec![(1, vec![v])] }))
}
pub fn none<'tcx>() -> Val<'tcx> {
    Val::En(Rc::new(EnumV { disc: Sc::C(0), vars: vec![] }))
}
pub fn split_idx(p: &[PE]) -> (&[PE], i64) {
    match p.last() {
        Some(PE::I(k)) => (&p[..p.len() - 1], *k as i64),
        _ => (p, 0),
    }
}
pub fn elem<'tcx>(p: &PtrV<'tcx>, i: u64) -> R<PtrV<'tcx>> {
    let mut q = p.clone();
    q.meta = Meta::None;
    match q.path.last_mut() {
        Some(PE::I(k)) => *k += i,
        _ => {
            if i == 0 {
            } else {
                return unsup("element of a non-array");
            }
        }
    }
    Ok(q)
}
fn assert_name<'tcx>(m: &AssertKind<Operand<'tcx>>) -> String {
    match m {
        AssertKind::BoundsCheck { .. } => "index out of bounds".into(),
        AssertKind::Overflow(op, ..) => format!("arithmetic overflow in {op:?}"),
        AssertKind::OverflowNeg(_) => "negation overflow".into(),
        AssertKind::DivisionByZero(_) => "division by zero".into(),
        AssertKind::RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}
fn wr<'tcx>(cur: &mut Val<'tcx>, path: &[PE], v: Val<'tcx>) -> R<()> {
    match path {
        [] => {
            *cur = v;
            Ok(())
        }
        [PE::F(k), rest @ ..] | [PE::Sub(_, _), PE::F(k), rest @ ..] => {
            if let Val::Uninit = cur {
                *cur = agg(vec![]);
            }
            match cur {
                Val::Agg(a) => {
                    let a = Rc::make_mut(a);
                    while a.len() <= *k as usize {
                        a.push(Val::Uninit);
                    }
                    wr(&mut a[*k as usize], rest, v)
                }
                c => unsup(format!("write of field {k} into {c:?}")),
            }
        }
        [PE::Sub(f, n)] => match (cur, &v) {
            (Val::Agg(a), Val::Agg(b)) => {
                let a = Rc::make_mut(a);
                for i in 0..*n as usize {
                    a[*f as usize + i] = b[i].clone();
                }
                Ok(())
            }
            _ => unsup("subarray write"),
        },
        [PE::Sub(f, _), PE::I(k), rest @ ..] => {
            let mut p = vec![PE::I(f + k)];
            p.extend_from_slice(rest);
            wr(cur, &p, v)
        }
        [PE::I(k), rest @ ..] => {
            if let Val::Uninit = cur {
                *cur = agg(vec![]);
            }
            match cur {
                Val::Agg(a) => {
                    let a = Rc::make_mut(a);
                    while a.len() <= *k as usize {
                        a.push(Val::Uninit);
                    }
                    wr(&mut a[*k as usize], rest, v)
                }
                c if *k == 0 => wr(c, rest, v),
                c => unsup(format!("write of index {k} into {c:?}")),
            }
        }
        [PE::D(vr), PE::F(k), rest @ ..] => {
            if let Val::Uninit = cur {
                *cur = Val::En(Rc::new(EnumV { disc: Sc::C(*vr as u128), vars: vec![] }));
            }
            match cur {
                Val::En(e) => {
                    let e = Rc::make_mut(e);
                    if !e.vars.iter().any(|x| x.0 == *vr) {
                        e.vars.push((*vr, vec![]));
                    }
                    let f = &mut e.vars.iter_mut().find(|x| x.0 == *vr).unwrap().1;
                    while f.len() <= *k as usize {
                        f.push(Val::Uninit);
                    }
                    wr(&mut f[*k as usize], rest, v)
                }
                c => unsup(format!("write of variant into {c:?}")),
            }
        }
        p => unsup(format!("write path {p:?}")),
    }
}
pub fn shim_is_clone(i: InstanceKind<'_>) -> bool {
    matches!(i, InstanceKind::Shim(ShimKind::Clone(..)))
}
