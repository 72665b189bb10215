//! Facts about the library crate that its metadata does not carry: initial contents of statics, and
//! the list of public items with their shapes.
use crate::def_path;
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc};
use rustc_middle::ty::{self, InstanceKind, ShimKind, TyCtxt};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;

#[derive(Default, Debug)]
pub struct Dump {
    pub statics: HashMap<String, u32>,
    pub allocs: Vec<DAlloc>,
}
#[derive(Default, Debug, Clone)]
pub struct DAlloc {
    pub bytes: Vec<u8>,
    /// offset, target, addend
    pub ptrs: Vec<(u64, String, u64)>,
}

pub fn load(dir: &str) -> Dump {
    let mut d = Dump::default();
    let Ok(t) = std::fs::read_to_string(format!("{dir}/statics.txt")) else { return d };
    for l in t.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "static" => {
                d.statics.insert(f[1].to_string(), f[2].parse().unwrap());
            }
            "alloc" => {
                let mut a = DAlloc::default();
                let h = f[1].as_bytes();
                for c in h.chunks(2) {
                    if c.len() == 2 {
                        a.bytes.push(u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap());
                    }
                }
                for p in f[2].split(',').filter(|x| !x.is_empty()) {
                    let q: Vec<&str> = p.split('@').collect();
                    a.ptrs.push((q[0].parse().unwrap(), q[1].to_string(), q[2].parse().unwrap()));
                }
                d.allocs.push(a);
            }
            _ => (),
        }
    }
    d
}

fn dump_alloc(tcx: TyCtxt<'_>, id: AllocId, seen: &mut HashMap<AllocId, u32>, out: &mut Vec<String>) -> String {
    if let Some(i) = seen.get(&id) {
        return format!("a{i}");
    }
    match tcx.global_alloc(id) {
        GlobalAlloc::Memory(a) => {
            let i = out.len() as u32;
            seen.insert(id, i);
            out.push(String::new());
            let s = dump_mem(tcx, a.inner(), seen, out);
            out[i as usize] = s;
            format!("a{i}")
        }
        GlobalAlloc::Static(d) => format!("s{}", crate::def_hash(tcx, d)),
        GlobalAlloc::Function { instance } => match instance.def {
            InstanceKind::Item(d) => format!("f{}", crate::def_hash(tcx, d)),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => match instance.args.type_at(0).kind() {
                ty::Closure(d, _) => format!("f{}", crate::def_hash(tcx, *d)),
                _ => "x".into(),
            },
            _ => "x".into(),
        },
        _ => "x".into(),
    }
}
fn dump_mem(
    tcx: TyCtxt<'_>,
    a: &rustc_middle::mir::interpret::Allocation,
    seen: &mut HashMap<AllocId, u32>,
    out: &mut Vec<String>,
) -> String {
    let n = a.size().bytes() as usize;
    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
    let mut s = String::from("alloc\t");
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s.push('\t');
    let ps: Vec<(u64, AllocId)> = a.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
    let mut l = vec![];
    for (o, p) in ps {
        let t = dump_alloc(tcx, p, seen, out);
        let mut addend = 0u64;
        for k in 0..8 {
            addend |= (b[o as usize + k] as u64) << (8 * k);
        }
        l.push(format!("{o}@{t}@{addend}"));
    }
    s.push_str(&l.join(","));
    s
}

pub fn dump(tcx: TyCtxt<'_>, dir: &str) {
    let _ = std::fs::create_dir_all(dir);
    let mut allocs: Vec<String> = vec![];
    let mut seen = HashMap::new();
    let mut statics = vec![];
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Static { .. }) {
            continue;
        }
        if let Ok(a) = tcx.eval_static_initializer(d) {
            let i = allocs.len();
            allocs.push(String::new());
            let s = dump_mem(tcx, a.inner(), &mut seen, &mut allocs);
            allocs[i] = s;
            statics.push(format!("static\t{}\t{i}", def_path(tcx, d)));
        }
    }
    let mut t = statics.join("\n");
    t.push('\n');
    t.push_str(&allocs.join("\n"));
    t.push('\n');
    let _ = std::fs::write(format!("{dir}/statics.txt"), t);
    let _ = std::fs::write(format!("{dir}/items.txt"), items(tcx));
    let _ = std::fs::write(format!("{dir}/bodies.txt"), bodies(tcx));
    let _ = std::fs::write(format!("{dir}/traits.txt"), traits(tcx));
    let _ = std::fs::write(format!("{dir}/macros.txt"), macros(tcx));
}

/// the crates whose code may allocate or talk to the operating system
fn foreign_crate(tcx: TyCtxt<'_>, d: DefId) -> Option<String> {
    let c = tcx.crate_name(d.krate).to_string();
    match c.as_str() {
        "core" | "colorz" | "compiler_builtins" => None,
        _ => Some(c),
    }
}
/// types of such crates mentioned in a type
fn foreign_types<'tcx>(tcx: TyCtxt<'tcx>, t: ty::Ty<'tcx>, out: &mut BTreeSet<String>) {
    for g in t.walk() {
        let ty::GenericArgKind::Type(t) = g.kind() else { continue };
        match t.kind() {
            ty::Adt(a, _) if foreign_crate(tcx, a.did()).is_some() => {
                out.insert(def_path(tcx, a.did()));
            }
            ty::Dynamic(ps, _) => {
                if let Some(d) = ps.principal_def_id() {
                    if foreign_crate(tcx, d).is_some() {
                        out.insert(def_path(tcx, d));
                    }
                }
            }
            ty::FnDef(d, _) if foreign_crate(tcx, *d).is_some() => {
                out.insert(def_path(tcx, *d));
            }
            _ => (),
        }
    }
}

/// per function body: what it calls, the foreign types it mentions, where it may panic, the statics it touches
fn bodies(tcx: TyCtxt<'_>) -> String {
    use rustc_middle::mir::{visit::Visitor, *};
    struct V<'a, 'tcx> {
        tcx: TyCtxt<'tcx>,
        body: &'a Body<'tcx>,
        env: ty::TypingEnv<'tcx>,
        out: BTreeSet<String>,
    }
    impl<'a, 'tcx> V<'a, 'tcx> {
        fn ty(&mut self, t: ty::Ty<'tcx>, sp: rustc_span::Span) {
            let mut s = BTreeSet::new();
            foreign_types(self.tcx, t, &mut s);
            for x in s {
                self.out.insert(format!("type\t{x}\t{}", crate::span_str(self.tcx, sp)));
            }
        }
        fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, sp: rustc_span::Span, kind: &str) {
            let tcx = self.tcx;
            let args = tcx.erase_and_anonymize_regions(args);
            let r = ty::Instance::try_resolve(tcx, self.env, d, args).ok().flatten();
            let (d, args) = match &r {
                Some(i) => (i.def_id(), i.args),
                None => (d, args),
            };
            let k = tcx.crate_name(d.krate);
            let kind = if tcx.is_foreign_item(d) { "extern" } else { kind };
            self.out.insert(format!("{kind}\t{}\t{k}\t{}", def_path(tcx, d), crate::span_str(tcx, sp)));
            for t in args.types() {
                self.ty(t, sp);
            }
        }
    }
    impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
        fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
            let sp = t.source_info.span;
            match &t.kind {
                TerminatorKind::Call { func, target, .. } => {
                    if let Some((d, a)) = func.const_fn_def() {
                        let p = def_path(self.tcx, d);
                        let n = p.rsplit("::").next().unwrap_or("");
                        if target.is_none()
                            || n == "unwrap"
                            || n == "unwrap_err"
                            || n == "expect"
                            || n == "expect_err"
                            || n.contains("split_at")
                            || n.contains("from_slice")
                            || n == "index"
                            || n == "index_mut"
                        {
                            self.out.insert(format!("panic\tcall {p}\t{}", crate::span_str(self.tcx, sp)));
                        }
                        self.callee(d, a, sp, "call");
                    } else {
                        self.out.insert(format!("indirect\t{}", crate::span_str(self.tcx, sp)));
                    }
                }
                TerminatorKind::Assert { msg, .. } => {
                    let m = format!("{msg:?}");
                    let m = m.split(['(', '{']).next().unwrap_or("").trim().to_string();
                    self.out.insert(format!("panic\tassert {m}\t{}", crate::span_str(self.tcx, sp)));
                }
                TerminatorKind::Drop { place, .. } => {
                    let t = place.ty(self.body, self.tcx).ty;
                    self.ty(t, sp);
                }
                _ => (),
            }
            self.super_terminator(t, l);
        }
        fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _l: Location) {
            let t = c.const_.ty();
            if let ty::FnDef(d, a) = t.kind() {
                self.callee(*d, a.skip_binder(), c.span, "mention");
            }
            if let Some(d) = c.check_static_ptr(self.tcx) {
                self.out.insert(format!("static\t{}\t{}", def_path(self.tcx, d), crate::span_str(self.tcx, c.span)));
            }
            self.ty(t, c.span);
        }
    }
    let mut s = String::new();
    let names: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    let _ = writeln!(s, "crates\t{}", names.join(" "));
    let ev = tcx.effective_visibilities(());
    for l in tcx.mir_keys(()) {
        let d = l.to_def_id();
        let k = tcx.def_kind(d);
        if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let mut v = V { tcx, body, env: ty::TypingEnv::post_analysis(tcx, d), out: BTreeSet::new() };
        for x in &body.local_decls {
            v.ty(x.ty, x.source_info.span);
        }
        v.visit_body(body);
        // trait methods can be called through the trait whatever their own visibility
        let in_trait = tcx.opt_associated_item(d).is_some_and(|i| !matches!(i.container, ty::AssocContainer::InherentImpl));
        let vis = if in_trait || ev.is_reachable(*l) { "pub" } else { "priv" };
        let _ = writeln!(s, "body\t{}\t{vis}\t{}", def_path(tcx, d), crate::span_str(tcx, tcx.def_span(d)));
        for x in v.out {
            let _ = writeln!(s, "  {x}");
        }
    }
    s
}

/// the traits a user can name: what an implementation outside the crate would have to name
fn traits(tcx: TyCtxt<'_>) -> String {
    let mut public = HashSet::new();
    nameable(tcx, rustc_hir::def_id::CRATE_DEF_ID.to_def_id(), &mut public, &mut HashSet::new());
    let mut s = String::new();
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Trait { .. }) {
            continue;
        }
        let sup: Vec<String> = rustc_middle::ty::elaborate::supertrait_def_ids(tcx, d)
            .filter(|x| *x != d)
            .map(|x| {
                let n = if !x.is_local() || public.contains(&x) { "nameable" } else { "hidden" };
                format!("{}={n}", def_path(tcx, x))
            })
            .collect();
        let _ = writeln!(
            s,
            "trait\t{}\t{}\t{}",
            def_path(tcx, d),
            if public.contains(&d) { "nameable" } else { "hidden" },
            sup.join(" ")
        );
        let mut n = 0;
        for i in tcx.all_impls(d) {
            n += 1;
            let t = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip().self_ty();
            // an implementation covers types of other crates when its type is a parameter, possibly
            // behind constructors that the orphan rules see through
            let mut u = t;
            loop {
                match u.kind() {
                    ty::Ref(_, x, _) => u = *x,
                    ty::Adt(a, g) if a.is_fundamental() && g.types().next().is_some() => u = g.type_at(0),
                    _ => break,
                }
            }
            if !matches!(u.kind(), ty::Param(_)) {
                continue;
            }
            let mut ps = vec![];
            for c in tcx.clauses_of(i).instantiate_identity(tcx).clauses {
                if let Some(t) = c.skip_norm_wip().as_trait_clause() {
                    if t.skip_binder().self_ty() == u {
                        ps.push(def_path(tcx, t.def_id()));
                    }
                }
            }
            let _ = writeln!(s, "  blanket\t{t}\t{}\t{}", ps.join(" "), crate::span_str(tcx, tcx.def_span(i)));
        }
        let _ = writeln!(s, "  impls\t{n}");
    }
    s
}
/// the arms of the exported macros: what each matches and the first token it expands to
fn macros(tcx: TyCtxt<'_>) -> String {
    use rustc_ast::tokenstream::TokenTree;
    let mut s = String::new();
    for i in tcx.hir_free_items() {
        let rustc_hir::ItemKind::Macro(name, m, _) = tcx.hir_item(i).kind else { continue };
        if !rustc_attr_ir::find_attr!(tcx, i.owner_id.def_id, MacroExport { .. }) {
            continue;
        }
        let tts: Vec<&TokenTree> = m.body.tokens.iter().collect();
        for arm in tts.split(|t| matches!(t, TokenTree::Token(t, _) if t.kind == rustc_ast::token::TokenKind::Semi)) {
            let ds: Vec<String> = arm
                .iter()
                .filter_map(|t| match t {
                    TokenTree::Delimited(_, _, _, ts) => Some(rustc_ast_pretty::pprust::tts_to_string(ts)),
                    _ => None,
                })
                .collect();
            if ds.len() == 2 {
                let _ = writeln!(s, "{name}\t{}\t{}", ds[0].replace(['\n', '\t'], " "), ds[1].replace(['\n', '\t'], " "));
            } else if !arm.is_empty() {
                let _ = writeln!(s, "{name}\t?\t?");
            }
        }
    }
    s
}
/// items with a public path
fn nameable(tcx: TyCtxt<'_>, m: DefId, out: &mut HashSet<DefId>, seen: &mut HashSet<DefId>) {
    let Some(l) = m.as_local() else { return };
    if !seen.insert(m) {
        return;
    }
    for c in tcx.module_children_local(l) {
        if !c.vis.is_public() {
            continue;
        }
        let Some(d) = c.res.opt_def_id() else { continue };
        out.insert(d);
        if tcx.def_kind(d) == DefKind::Mod {
            nameable(tcx, d, out, seen);
        }
    }
}

/// every item a user can name, with its shape
fn items(tcx: TyCtxt<'_>) -> String {
    let mut out: BTreeMap<String, String> = BTreeMap::new();
    let mut seen = BTreeSet::new();
    walk(tcx, rustc_hir::def_id::CRATE_DEF_ID.to_def_id(), "colorz", &mut out, &mut seen);
    // trait implementations
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
            let head = if of_trait {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let g = tcx.clauses_of(d).instantiate_identity(tcx);
                let ps: Vec<String> = g.clauses.iter().map(|p| clause_str(p)).collect();
                let h = format!("impl {} for {} where {}", tr.print_only_trait_path(), tr.self_ty(), ps.join(", "));
                out.insert(h.clone(), "impl".into());
                h
            } else {
                format!("{}", tcx.type_of(d).instantiate_identity().skip_norm_wip())
            };
            if of_trait {
                continue;
            }
            for i in tcx.associated_items(d).in_definition_order() {
                if tcx.visibility(i.def_id).is_public() {
                    out.insert(format!("{head}::{}", i.name()), shape(tcx, i.def_id));
                }
            }
        }
    }
    let mut s = String::new();
    for (k, v) in out {
        let _ = writeln!(s, "{k}\t{}", v.replace('\n', " "));
    }
    s
}
fn clause_str<'tcx>(c: &rustc_middle::ty::Unnormalized<'tcx, ty::Clause<'tcx>>) -> String {
    format!("{}", c.skip_norm_wip())
}
fn shape(tcx: TyCtxt<'_>, d: DefId) -> String {
    let k = tcx.def_kind(d);
    match k {
        DefKind::Fn | DefKind::AssocFn => {
            let c = if tcx.is_const_fn(d) { "const " } else { "" };
            let g = tcx.clauses_of(d).instantiate_identity(tcx);
            let ps: Vec<String> = g.clauses.iter().map(|p| clause_str(p)).collect();
            format!("{c}fn {} where {}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip(), ps.join(", "))
        }
        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
            format!("const {}", tcx.type_of(d).instantiate_identity().skip_norm_wip())
        }
        DefKind::Struct | DefKind::Enum | DefKind::Union => {
            let a = tcx.adt_def(d);
            let mut s = format!("{k:?} {:?} {{", tcx.generics_of(d).own_params.iter().map(|p| p.name).collect::<Vec<_>>());
            for v in a.variants() {
                let _ = write!(s, " {}(", v.name);
                for f in &v.fields {
                    if f.vis.is_public() {
                        let _ = write!(s, "{}: {}, ", f.name, tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                    } else {
                        s.push_str("_, ");
                    }
                }
                s.push(')');
            }
            s.push('}');
            s
        }
        DefKind::Trait { .. } => {
            let mut s = String::from("trait {");
            for i in tcx.associated_items(d).in_definition_order() {
                let x = match i.kind {
                    rustc_middle::ty::AssocKind::Type { .. } => "type".to_string(),
                    _ => shape(tcx, i.def_id),
                };
                let _ = write!(s, " {}: {} default={};", i.name(), x, tcx.defaultness(i.def_id).has_value());
            }
            s.push('}');
            s
        }
        k => format!("{k:?}"),
    }
}
fn walk(tcx: TyCtxt<'_>, m: DefId, path: &str, out: &mut BTreeMap<String, String>, seen: &mut BTreeSet<String>) {
    let ch: Vec<(String, Res<rustc_hir::def_id::DefId>, bool)> = vec![];
    let _ = ch;
    let kids = match m.as_local() {
        Some(l) => tcx.module_children_local(l),
        None => return,
    };
    for c in kids {
        if !c.vis.is_public() {
            continue;
        }
        let p = format!("{path}::{}", c.ident.name);
        let Some(d) = c.res.opt_def_id() else {
            out.insert(p, "res".into());
            continue;
        };
        let key = format!("{p} {:?}", c.res);
        if !seen.insert(key) {
            continue;
        }
        if tcx.def_kind(d) == DefKind::Mod && d.is_local() {
            out.insert(p.clone(), "mod".into());
            walk(tcx, d, &p, out, seen);
        } else {
            let tag = match tcx.def_kind(d) {
                DefKind::Macro(_) => "!",
                DefKind::Fn | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::Ctor(..) => "()",
                _ => "",
            };
            out.insert(format!("{p}{tag}"), shape(tcx, d));
        }
    }
}
