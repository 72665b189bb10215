//! Static analyser for colorz: runs inside rustc, interprets MIR over abstract values.
#![feature(rustc_private)]
#![allow(clippy::too_many_arguments)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod facts;
mod interp;
mod models;
mod outlog;
mod sc;
mod val;
mod vhmod;

use interp::*;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub fn ty_name<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, _) => def_path(tcx, a.did()),
        ty::Ref(_, i, _) => format!("&{}", ty_name(tcx, *i)),
        ty::Slice(e) => format!("[{}]", ty_name(tcx, *e)),
        ty::Array(e, _) => format!("[{}; _]", ty_name(tcx, *e)),
        ty::Dynamic(..) => "dyn".into(),
        _ => t.to_string(),
    }
}
/// a name of a definition that means the same in every compilation
pub fn def_hash(tcx: TyCtxt<'_>, d: rustc_hir::def_id::DefId) -> String {
    let (a, b) = tcx.def_path_hash(d).0.split();
    format!("{:x}-{:x}", a.as_u64(), b.as_u64())
}
pub fn def_of_hash(tcx: TyCtxt<'_>, s: &str) -> Option<rustc_hir::def_id::DefId> {
    let (a, b) = s.split_once('-')?;
    let f = |x: &str| u64::from_str_radix(x, 16).ok();
    let h = rustc_data_structures::fingerprint::Fingerprint::new(f(a)?, f(b)?);
    tcx.def_path_hash_to_def_id(rustc_hir::def_id::DefPathHash(h))
}
pub fn def_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let key = tcx.def_key(d);
    let Some(parent) = key.parent else { return tcx.crate_name(d.krate).to_string() };
    let p = DefId { krate: d.krate, index: parent };
    if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
        let name = key.disambiguated_data.data.to_string();
        if of_trait {
            let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip().def_id;
            return format!("<{} as {}>::{}", ty_name(tcx, st), def_path(tcx, tr), name);
        }
        return format!("{}::{}", ty_name(tcx, st), name);
    }
    if let DefKind::Impl { .. } = tcx.def_kind(d) {
        return format!("{}::impl#{}", def_path(tcx, p), key.disambiguated_data.disambiguator);
    }
    let pp = def_path(tcx, p);
    // foreign modules and private re-export modules of core::fmt are flattened for stable names
    format!("{pp}::{}", key.disambiguated_data.data)
}
pub fn in_colorz(tcx: TyCtxt<'_>, d: DefId) -> bool {
    tcx.crate_name(d.krate).as_str() == "colorz"
}
pub fn span_str(tcx: TyCtxt<'_>, s: Span) -> String {
    let l = tcx.sess.source_map().lookup_char_pos(s.source_callsite().lo());
    let f = match &l.file.name {
        rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
        o => format!("{o:?}"),
    };
    let f = match f.find("/src/") {
        Some(i) => f[i + 1..].to_string(),
        None => f,
    };
    let own = tcx.sess.source_map().lookup_char_pos(s.lo());
    if own.line != l.line {
        format!("{f}:{} (macro line {})", l.line, own.line)
    } else {
        format!("{f}:{}", l.line)
    }
}
pub fn trait_method(tcx: TyCtxt<'_>, tr: &str, m: &str) -> Option<DefId> {
    thread_local!(static C: std::cell::RefCell<std::collections::HashMap<String, DefId>> = Default::default());
    let k = format!("{tr}::{m}");
    if let Some(d) = C.with(|c| c.borrow().get(&k).copied()) {
        return Some(d);
    }
    for t in tcx.all_traits_including_private() {
        if def_path(tcx, t) == tr {
            for i in tcx.associated_items(t).in_definition_order() {
                if i.name().as_str() == m {
                    let d = i.def_id;
                    C.with(|c| c.borrow_mut().insert(k, d));
                    return Some(d);
                }
            }
        }
    }
    None
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<'a>(v: impl Iterator<Item = &'a str>) -> String {
    format!("[{}]", v.map(jstr).collect::<Vec<_>>().join(","))
}

#[derive(Clone)]
struct Job<'tcx> {
    root: DefId,
    name: String,
    shard: u128,
    inst: Option<(Ty<'tcx>, TypingEnv<'tcx>, String)>,
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}

struct Harness;

fn setup<'tcx>(it: &mut It<'tcx>, base: &Shared<'tcx>) {
    it.dump = base.dump.clone();
    it.features = base.features.clone();
    it.relation = base.relation.clone();
    it.stores = base.stores.clone();
}
struct Shared<'tcx> {
    dump: std::rc::Rc<facts::Dump>,
    features: Vec<String>,
    relation: Option<BTreeSet<(u128, u128)>>,
    stores: BTreeMap<String, Vec<Store<'tcx>>>,
}

fn start<'tcx>(it: &mut It<'tcx>, job: &Job<'tcx>) -> R<()> {
    let args = match &job.inst {
        Some((t, _, _)) => it.tcx.mk_args(&[(*t).into()]),
        None => {
            let id = ty::GenericArgs::identity_for_item(it.tcx, job.root);
            it.tcx.erase_and_anonymize_regions(id)
        }
    };
    let inst = Instance::new_raw(job.root, args);
    let body = it.body(inst, None)?;
    let mut st = val::State::new();
    // generic roots may take opaque parameters directly
    let mut vals = vec![];
    for i in 0..body.arg_count {
        let l = rustc_middle::mir::Local::from_usize(i + 1);
        let t = body.local_decls[l].ty;
        let name = it
            .tcx
            .fn_arg_idents(job.root)
            .get(i)
            .and_then(|x| x.map(|x| x.name.to_string()))
            .unwrap_or_else(|| format!("arg{i}"));
        vals.push(it.sym(&mut st, t, &name)?);
    }
    it.push_frame(&mut st, inst, body, vals, None, rustc_span::DUMMY_SP)?;
    it.run(st);
    Ok(())
}

fn new_it<'tcx>(tcx: TyCtxt<'tcx>, job: &Job<'tcx>, sh: &Shared<'tcx>) -> It<'tcx> {
    let env = match &job.inst {
        Some((_, e, _)) => *e,
        None => TypingEnv::post_analysis(tcx, job.root),
    };
    let mut it = It::new(tcx, env);
    setup(&mut it, sh);
    it.shard = job.shard;
    it
}

fn run_job<'tcx>(tcx: TyCtxt<'tcx>, job: &Job<'tcx>, sh: &Shared<'tcx>) -> String {
    let t0 = std::time::Instant::now();
    let mut it = new_it(tcx, job, sh);
    match start(&mut it, job) {
        Ok(()) => (),
        Err(E::Dead) => (),
        Err(E::Unsup(m)) => {
            it.errors.insert(m);
        }
        Err(E::Need(..)) => {
            it.errors.insert("split before the first statement".into());
        }
        Err(_) => {
            it.errors.insert("failure before the first statement".into());
        }
    }
    if it.stats.retries > 0 && it.stats.finished == 0 && it.violations.is_empty() {
        it.errors.insert("no path leaves a compare-and-swap retry loop".into());
    }
    let s = &it.stats;
    let checks: Vec<String> = it.check_sites.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let viol: Vec<String> =
        it.violations.iter().map(|v| format!("{{\"rule\":{},\"text\":{}}}", jstr(&v.key), jstr(&v.text))).collect();
    format!(
        "{{\"root\":{},\"type\":{},\"shard\":{},\"ms\":{},\"steps\":{},\"paths\":{},\"splits\":{},\"checks\":{},\"calls\":{},\"consts\":{},\"panic_sites\":{},\"bounded\":{},\"retries\":{},\"check_sites\":{{{}}},\"fns\":{},\"violations\":[{}],\"errors\":{}}}\n",
        jstr(&job.name),
        jstr(job.inst.as_ref().map_or("", |i| &i.2)),
        job.shard,
        t0.elapsed().as_millis(),
        s.steps,
        s.states - s.splits.min(s.states),
        s.splits,
        s.checks,
        s.calls,
        s.consts,
        s.panics_sites,
        it.bounded.get(),
        s.retries,
        checks.join(","),
        jlist(it.fns.iter().filter(|f| f.contains("colorz") && !f.starts_with("colorz_harness")).map(|x| x.as_str())),
        viol.join(","),
        jlist(it.errors.iter().map(|x| x.as_str())),
    )
}

fn impls_of<'tcx>(tcx: TyCtxt<'tcx>, tr: &str) -> Vec<(Ty<'tcx>, TypingEnv<'tcx>, String)> {
    let mut out = vec![];
    for t in tcx.all_traits_including_private() {
        let p = def_path(tcx, t);
        if in_colorz(tcx, t) && p.rsplit("::").next() == Some(tr) {
            for i in tcx.all_impls(t) {
                let st = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip().self_ty();
                let st = tcx.erase_and_anonymize_regions(st);
                out.push((st, TypingEnv::post_analysis(tcx, i), st.to_string()));
            }
        }
    }
    out.sort_by(|a, b| a.2.cmp(&b.2));
    out
}

impl Callbacks for Harness {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("ABSINT_OUT").expect("ABSINT_OUT");
        let only = std::env::var("ABSINT_ONLY").ok();
        let only_ty = std::env::var("ABSINT_TYPE").ok();
        let njobs: usize = std::env::var("ABSINT_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
        let mut sh = Shared {
            dump: std::rc::Rc::new(facts::load(&std::env::var("ABSINT_FACTS").expect("ABSINT_FACTS"))),
            features: std::env::var("ABSINT_FEATURES").unwrap_or_default().split(',').map(|x| x.to_string()).collect(),
            relation: None,
            stores: BTreeMap::new(),
        };
        let mut jobs: Vec<Job<'tcx>> = vec![];
        let mut rels: Vec<Job<'tcx>> = vec![];
        let mut colls: Vec<Job<'tcx>> = vec![];
        let mut owners: Vec<DefId> = tcx.hir_body_owners().map(|d| d.to_def_id()).collect();
        owners.sort_by_key(|d| d.index);
        for d in owners {
            if tcx.def_kind(d) != DefKind::Fn {
                continue;
            }
            let p = def_path(tcx, d);
            let name = p.rsplit("::").next().unwrap().to_string();
            let is = |k: &str| name.starts_with(k);
            if !(is("check_") || is("relation_") || is("collect_")) {
                continue;
            }
            if let (Some(o), true) = (&only, is("check_")) {
                if !p.contains(o.as_str()) {
                    continue;
                }
            }
            let mut base = vec![];
            let each = name.find("_each_").map(|i| (i + 6, false)).or(name.find("_concrete_").map(|i| (i + 10, true)));
            if let Some((i, conc)) = each {
                let tr = name[i..].split("_s").next().unwrap();
                let mut im = impls_of(tcx, tr);
                if conc {
                    im.retain(|x| !matches!(x.0.kind(), ty::Param(_)));
                }
                assert!(!im.is_empty(), "no implementations of {tr}");
                for x in im {
                    if only_ty.as_ref().map_or(false, |o| !x.2.contains(o.as_str())) {
                        continue;
                    }
                    base.push(Job { root: d, name: p.clone(), shard: 0, inst: Some(x) });
                }
            } else {
                base.push(Job { root: d, name: p.clone(), shard: 0, inst: None });
            }
            let shards = name
                .rfind("_s")
                .and_then(|i| name[i + 2..].parse::<u128>().ok())
                .unwrap_or(1);
            for b in base {
                for s in 0..shards {
                    let mut j = b.clone();
                    j.shard = s;
                    if is("check_") {
                        jobs.push(j)
                    } else if is("relation_") {
                        rels.push(j)
                    } else {
                        colls.push(j)
                    }
                }
            }
        }
        let mut text = String::new();
        // presence contract: least fixpoint over all implementations
        if !rels.is_empty() {
            sh.relation = Some(BTreeSet::new());
            loop {
                let mut acc = sh.relation.clone().unwrap();
                let mut errs = vec![];
                for j in &rels {
                    let mut it = new_it(tcx, j, &sh);
                    match start(&mut it, j) {
                        Ok(()) | Err(E::Dead) => (),
                        Err(E::Unsup(m)) => errs.push(m),
                        Err(_) => errs.push("relation".into()),
                    }
                    acc.extend(it.relation_acc.iter().cloned());
                    errs.extend(it.errors.iter().cloned());
                    errs.extend(it.violations.iter().map(|v| v.text.clone()));
                }
                if Some(&acc) == sh.relation.as_ref() {
                    for e in errs {
                        let _ = writeln!(text, "{{\"setup_error\":{}}}", jstr(&e));
                    }
                    break;
                }
                sh.relation = Some(acc);
            }
            let l: Vec<String> = sh.relation.as_ref().unwrap().iter().map(|(k, p)| format!("[{k},{p}]")).collect();
            let _ = writeln!(text, "{{\"relation\":[{}],\"implementations\":{}}}", l.join(","), rels.len());
        }
        if !colls.is_empty() {
            loop {
                let mut grew = false;
                let mut errs = vec![];
                for j in &colls {
                    let mut it = new_it(tcx, j, &sh);
                    it.collecting = true;
                    match start(&mut it, j) {
                        Ok(()) | Err(E::Dead) => (),
                        Err(E::Unsup(m)) => errs.push(m),
                        Err(_) => errs.push("collect".into()),
                    }
                    errs.extend(it.errors.iter().cloned());
                    grew |= it.stores_grew;
                    sh.stores = it.stores.clone();
                }
                if !grew {
                    for e in errs {
                        let _ = writeln!(text, "{{\"setup_error\":{}}}", jstr(&e));
                    }
                    break;
                }
                if sh.stores.values().map(|v| v.len()).sum::<usize>() > 80 {
                    let _ = writeln!(text, "{{\"setup_error\":\"too many store shapes\"}}");
                    break;
                }
            }
            let l: Vec<String> = sh
                .stores
                .iter()
                .map(|(k, v)| format!("{}:{}", jstr(k), jlist(v.iter().map(|s| s.what.as_str()))))
                .collect();
            let _ = writeln!(text, "{{\"stores\":{{{}}}}}", l.join(","));
        }
        let _ = writeln!(text, "{{\"jobs\":{}}}", jobs.len());

        if njobs <= 1 || jobs.len() <= 1 {
            for j in &jobs {
                text.push_str(&run_job(tcx, j, &sh));
            }
            std::fs::write(&out, text).unwrap();
            return Compilation::Stop;
        }
        // a pipe as the job queue
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(pipe(fds.as_mut_ptr()), 0);
        }
        let mut pids = vec![];
        let n = njobs.min(jobs.len());
        for w in 0..n {
            let pid = unsafe { fork() };
            assert!(pid >= 0);
            if pid == 0 {
                unsafe { close(fds[1]) };
                let mut t = String::new();
                loop {
                    let mut b = [0u8; 4];
                    let k = unsafe { read(fds[0], b.as_mut_ptr(), 4) };
                    if k != 4 {
                        break;
                    }
                    let i = u32::from_le_bytes(b) as usize;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(tcx, &jobs[i], &sh)));
                    match r {
                        Ok(s) => t.push_str(&s),
                        Err(e) => {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                                .unwrap_or_default();
                            let _ = writeln!(
                                t,
                                "{{\"root\":{},\"type\":{},\"errors\":[{}]}}",
                                jstr(&jobs[i].name),
                                jstr(jobs[i].inst.as_ref().map_or("", |i| &i.2)),
                                jstr(&format!("internal error of the analyser: {m}"))
                            );
                        }
                    }
                }
                let _ = std::fs::write(format!("{out}.{w}"), t);
                unsafe { _exit(0) }
            }
            pids.push(pid);
        }
        unsafe { close(fds[0]) };
        for i in 0..jobs.len() as u32 {
            let b = i.to_le_bytes();
            unsafe { write(fds[1], b.as_ptr(), 4) };
        }
        unsafe { close(fds[1]) };
        for (w, p) in pids.into_iter().enumerate() {
            let mut s = 0;
            unsafe { waitpid(p, &mut s, 0) };
            match std::fs::read_to_string(format!("{out}.{w}")) {
                Ok(t) if s == 0 => text.push_str(&t),
                _ => {
                    let _ = writeln!(text, "{{\"setup_error\":\"worker {w} died (status {s})\"}}");
                }
            }
        }
        std::fs::write(&out, text).unwrap();
        Compilation::Stop
    }
}

struct Lib;
impl Callbacks for Lib {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(d) = std::env::var("ABSINT_FACTS") {
            facts::dump(tcx, &d);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real compiler
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let probe = args.iter().any(|a| a.starts_with("--print") || a == "-vV");
    if probe || (name != "colorz" && name != "colorz_harness") {
        let e = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(e.code().unwrap_or(101));
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        if name == "colorz" {
            rustc_driver::compiler_entrypoint(&args, &mut Lib)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Harness)
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 101 });
}
