//! Abstract values, structured memory and machine states.
use crate::sc::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{BasicBlock, Body};
use rustc_middle::ty::{Instance, Ty};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct AtomInfo {
    pub name: String,
    pub n: usize,
    pub labels: Labels,
}
#[derive(Clone)]
pub enum Labels {
    Num,
    Bool,
    Byte,
    Names(Rc<Vec<String>>),
}

thread_local! {
    pub static ATOMS: RefCell<(Vec<AtomInfo>, HashMap<String, Vec<Atom>>)> = RefCell::new((vec![], HashMap::new()));
}
pub fn atom(name: &str, n: usize, labels: Labels) -> Atom {
    ATOMS.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(x) = a.1.get(name).and_then(|l| l.iter().find(|x| a.0[**x as usize].n == n)) {
            return *x;
        }
        let id = a.0.len() as Atom;
        a.0.push(AtomInfo { name: name.to_string(), n, labels });
        a.1.entry(name.to_string()).or_default().push(id);
        id
    })
}
pub fn atom_size(x: Atom) -> usize {
    ATOMS.with(|a| a.borrow().0[x as usize].n)
}
pub fn atom_name(x: Atom) -> String {
    ATOMS.with(|a| a.borrow().0[x as usize].name.clone())
}
pub fn show_set(x: Atom, s: &Set) -> String {
    ATOMS.with(|a| {
        let a = a.borrow();
        let i = &a.0[x as usize];
        let lab = |k: usize| match &i.labels {
            Labels::Num => k.to_string(),
            Labels::Bool => (k == 1).to_string(),
            Labels::Byte => {
                let c = k as u8;
                if c.is_ascii_graphic() || c == b' ' {
                    format!("{:?}", c as char)
                } else {
                    format!("0x{c:02x}")
                }
            }
            Labels::Names(v) => v[k].clone(),
        };
        let c = card(s);
        if c == i.n {
            return "any".into();
        }
        let v: Vec<String> = elems(s).take(6).map(lab).collect();
        if c > 6 {
            format!("{{{}, .. {} values}}", v.join(", "), c)
        } else if c == 1 {
            v[0].clone()
        } else {
            format!("{{{}}}", v.join(", "))
        }
    })
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Base {
    Stack(u32),
    Heap(u32),
    Glob(u32),
    Static(DefId),
    /// dangling / never dereferenced
    Dang(u64),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PE {
    F(u32),
    D(u32),
    I(u64),
    Sub(u64, u64),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Meta<'tcx> {
    None,
    Len(Sc),
    Vt(Ty<'tcx>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct PtrV<'tcx> {
    pub base: Base,
    pub path: Vec<PE>,
    pub meta: Meta<'tcx>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct EnumV<'tcx> {
    /// variant index
    pub disc: Sc,
    pub vars: Vec<(u32, Vec<Val<'tcx>>)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val<'tcx> {
    Uninit,
    S(Sc),
    Agg(Rc<Vec<Val<'tcx>>>),
    En(Rc<EnumV<'tcx>>),
    P(Rc<PtrV<'tcx>>),
    Fn(Instance<'tcx>),
    /// opaque value of a generic type, named by a term
    Opq(Rc<str>),
    /// lazily created array of byte atoms
    SymBytes(Rc<str>),
    /// a formatter: sink and option set
    Fmtr(u32, u32),
    Sp(Rc<Special<'tcx>>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Special<'tcx> {
    /// environment variable content: name
    Env(Rc<str>),
    /// one argument of a format_args!
    FmtArg { val: Val<'tcx>, ty: Ty<'tcx>, tr: Rc<str> },
    FmtArgs { tmpl: Rc<[u8]>, args: Vec<Val<'tcx>> },
    /// debug builder on a formatter object
    Builder { kind: Rc<str>, fmt: Val<'tcx>, failed: bool, n: u32 },
}

pub fn agg<'tcx>(v: Vec<Val<'tcx>>) -> Val<'tcx> {
    Val::Agg(Rc::new(v))
}
pub fn con<'tcx>(x: u128) -> Val<'tcx> {
    Val::S(Sc::C(x))
}
pub fn unit<'tcx>() -> Val<'tcx> {
    agg(vec![])
}

#[derive(Clone)]
pub enum Ev {
    /// literal output
    Str(Rc<Vec<Sc>>),
    /// colour written by an opaque colour: layer, args-only?, colour term
    Color(char, bool, Rc<str>),
    /// opaque formatting event: text key
    Opq(Rc<str>),
    /// text padded under caller options
    Pad(u32, Rc<Vec<Sc>>),
}
pub type Site = (DefId, Span);

#[derive(Clone)]
pub struct Sink {
    pub log: Rc<Vec<(Ev, Option<Site>)>>,
    pub failing: bool,
    pub failed: bool,
    pub after: bool,
    pub after_site: Option<Site>,
}

#[derive(Clone)]
pub enum Piece<'tcx> {
    Lit(Rc<Vec<Sc>>),
    Ev(Ev),
    Arg { val: Val<'tcx>, ty: Ty<'tcx>, tr: Rc<str>, opts: u32 },
}

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub body: Rc<Body<'tcx>>,
    pub inst: Instance<'tcx>,
    pub bb: BasicBlock,
    pub stmt: usize,
    pub base: u32,
    pub ret: Option<(PtrV<'tcx>, Option<BasicBlock>)>,
    pub native: Option<Rc<NativeState<'tcx>>>,
    pub site_span: Span,
    /// failed compare-and-swaps below this frame, by the block that was being executed here
    pub fails: Vec<(BasicBlock, u32)>,
}
#[derive(Clone)]
pub struct NativeState<'tcx> {
    pub pieces: Rc<Vec<Piece<'tcx>>>,
    pub i: usize,
    pub sink: u32,
    /// object index receiving callee results
    pub slot: u32,
}

pub struct Dec {
    pub site: Option<Site>,
    pub atom: Atom,
    pub set: Set,
    pub prev: Option<Rc<Dec>>,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub frames: Vec<Frame<'tcx>>,
    pub objs: Vec<Rc<Val<'tcx>>>,
    pub heap: Vec<Rc<Val<'tcx>>>,
    pub statics: Vec<(DefId, Rc<Val<'tcx>>)>,
    pub doms: Rc<Vec<Set>>,
    pub sinks: Vec<Sink>,
    pub decs: Option<Rc<Dec>>,
    pub counters: Rc<HashMap<&'static str, u32>>,
    pub probes: Vec<(Rc<str>, Vec<Sc>, bool)>,
    pub globals_used: Vec<(Rc<str>, Option<Site>)>,
    pub conc: bool,
    /// what another thread does in between: a closure, run as a whole before one of the atomic operations to come
    pub other: Option<(Val<'tcx>, Ty<'tcx>)>,
    /// the other thread is running: above this frame, since this many steps
    pub other_frame: Option<(usize, Option<u32>)>,
    /// the other thread's own instances of thread-local statics
    pub other_tls: Vec<(DefId, PtrV<'tcx>)>,
    /// how often the environment has changed
    pub env_gen: u32,
    pub diag: Rc<String>,
    pub result: Option<Val<'tcx>>,
    pub notes: Rc<Vec<String>>,
}

impl<'tcx> Doms for State<'tcx> {
    fn dom(&self, a: Atom) -> Set {
        match self.doms.get(a as usize) {
            Some(s) if !empty(s) => *s,
            _ => full(atom_size(a)),
        }
    }
    fn size(&self, a: Atom) -> usize {
        atom_size(a)
    }
}

impl<'tcx> State<'tcx> {
    pub fn new() -> Self {
        State {
            frames: vec![],
            objs: vec![],
            heap: vec![],
            statics: vec![],
            doms: Rc::new(vec![]),
            sinks: vec![],
            decs: None,
            counters: Rc::new(HashMap::new()),
            probes: vec![],
            globals_used: vec![],
            conc: false,
            other: None,
            other_frame: None,
            other_tls: vec![],
            env_gen: 0,
            diag: Rc::new(String::new()),
            result: None,
            notes: Rc::new(vec![]),
        }
    }
    /// an all-zero set in `doms` means "not yet restricted"
    pub fn set_dom(&mut self, a: Atom, s: Set) {
        assert!(!empty(&s));
        let d = Rc::make_mut(&mut self.doms);
        while d.len() <= a as usize {
            d.push([0; 4]);
        }
        d[a as usize] = s;
    }
    pub fn count(&mut self, k: &'static str) -> u32 {
        let m = Rc::make_mut(&mut self.counters);
        let c = m.entry(k).or_insert(0);
        *c += 1;
        *c - 1
    }
    pub fn alloc(&mut self, v: Val<'tcx>) -> PtrV<'tcx> {
        self.heap.push(Rc::new(v));
        PtrV { base: Base::Heap(self.heap.len() as u32 - 1), path: vec![], meta: Meta::None }
    }
}
