"""Analyses over the facts the compiler driver records about the library: function bodies and their resolved calls, traits, public
items, macro arms; and programs that must not compile."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import bodies, plan

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def facts(check, work, res, feats, flags=(), release=False):
    """facts of the library under feature sets; the result has the configurations that compile"""
    cfgs = [check.Config(f, [], os.path.join(work, "facts"), None, 1, release) for f in feats]
    for c in cfgs:
        c.flags = list(flags)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(check.Config.run, cfgs))
    for c in cfgs:
        for name, files, text in c.compile:
            res.errors.append(f"[{c.name}] does not compile ({name}): {text[:1500]}")
        for e in c.errors:
            res.errors.append(f"[{c.name}] {e}")
        if not c.compile and "bodies.txt" not in c.facts:
            res.errors.append(f"[{c.name}] no facts about the library")
    return [c for c in cfgs if "bodies.txt" in c.facts]


def viol(res, rule, where, config, text):
    res.violations.append(dict(rule=rule, where=where, config=config, text=text))


# ---------------------------------------------------------------- C26: every body that may panic was analysed
def coverage26(check, prop, tier, work, prev):
    res = check.Result()
    n, exempted, bodies_n, unanalysed = 0, set(), 0, set()
    for c in prev.cfgs:
        if "bodies.txt" not in c.facts:
            continue
        visited = set()
        for d in c.lines:
            visited.update(d.get("fns", []))
        _, bs = bodies.read(c.facts["bodies.txt"])
        g = bodies.Graph(bs)
        live = g.reach(b.path for b in bs if b.vis == "pub")
        bodies_n += len(live)
        # a body that no analysed path enters can only be entered through a public body that was not analysed
        todo, open_ = [b.path for b in bs if b.vis == "pub" and b.path not in visited], set()
        while todo:
            p = todo.pop()
            if p not in open_:
                open_.add(p)
                todo += [q for q in g.next(p) if q not in visited]
        for b in bs:
            n += len(b.panics)
            if b.panics and b.path in live and b.path not in visited:
                outer = re.sub(r"(::\{closure#\d+\})+$", "", b.path)
                if b.path not in open_ or outer != b.path and outer in visited:
                    exempted.add(b.path)
                else:
                    res.errors.append(f"[{c.name}] {b.path} ({b.at}) may panic ({b.panics[0][0]}) and no rule analyses it")
        unanalysed.update(open_)
    res.cov = dict(
        explanation="Every function body reachable from the public interface that contains a possible panic (assert, diverging call, unwrap, "
        "indexing) must have been entered by one of the rules, or be out of reach of every body that was not entered.",
        bodies_not_analysed_without_panic_site=len(unanalysed), unanalysed_samples=sorted(x for x in unanalysed if " as core::" not in x)[:40], panic_sites=n, live_bodies=bodies_n, dead_panicking_bodies=sorted(exempted))
    return res


# ---------------------------------------------------------------- C02: only the setters write the settings
SETTERS = ("colorz::mode::set_coloring_mode", "colorz::mode::set_coloring_mode_from_env", "colorz::mode::set_default_stream")
GETTERS = ("colorz::mode::get_coloring_mode", "colorz::mode::get_default_stream")
READS = ("load", "fmt", "as_ptr", "into_inner")


def writers02(check, prop, tier, work, prev):
    res = check.Result()
    n, writers = 0, set()
    for c in prev.cfgs:
        if "bodies.txt" not in c.facts:
            continue
        _, bs = bodies.read(c.facts["bodies.txt"])
        visited = set()
        for d in c.lines:
            visited.update(d.get("fns", []))
        settings = set()
        inside = bodies.reachable(bs, lambda b: b.path in SETTERS + GETTERS)
        for b in bs:
            if b.path in inside:
                settings.update(s[0] for s in b.statics)
        # bodies that may write a setting: they name its static and perform an atomic operation other than a load, or call a setter
        direct = {}
        for b in bs:
            st = [s for s in b.statics if s[0] in settings]
            ops = [x for x in b.calls if "::atomic::" in x[0] and x[0].rsplit("::", 1)[1] not in READS + ("fence", "compiler_fence")]
            n += len(st)
            if st and ops:
                direct[b.path] = f"{st[0][0]} and {ops[0][0]} at {ops[0][2]}"
        g = bodies.Graph(bs)
        for b in bs:
            if b.vis != "pub" or b.path in SETTERS or b.path in visited:
                continue
            n += 1
            hit = g.path(b.path, lambda p: p in direct or p in SETTERS)
            if hit:
                writers.add(b.path)
                viol(res, "only the setters change the settings", b.path, c.name,
                     f"{b.path} ({b.at}) reaches a write of a global setting: " + " -> ".join(hit) + (f" ({direct[hit[-1]]})" if hit[-1] in direct else ""))
    res.cov = dict(
        explanation="Call-graph effect analysis: no public function outside the setters reaches a body that stores to a settings static "
        "(functions entered by the rules above are judged there, path by path).", call_graph_obligations=n)
    return res


# ---------------------------------------------------------------- C27: no allocation, no std
ENV = re.compile(r"^<?(std::env::|std::ffi::os_str::|std::os::unix::ffi::os_str|alloc::string::|<?alloc::borrow::|alloc::str::)")
PROBE = re.compile(r"^(std::io::stdio::(stdout|stderr|Stdout|Stderr|StdoutLock|StderrLock|IsTerminal|IsTerminal::is_terminal)$"
                   r"|<std::io::stdio::(Stdout|Stderr)(Lock)? as std::io::stdio::IsTerminal>::is_terminal$"
                   r"|std::io::stdio::(Stdout|Stderr)::lock$|<?supports_color::)")
NEUTRAL = re.compile(r"^<?std::sync::(once|once_lock|lazy_lock|poison::once)::")
ENV_API = ("colorz::mode::Mode::from_env", "colorz::mode::set_coloring_mode_from_env")


def effects27(check, prop, tier, work, prev):
    res = check.Result()
    feats = plan.ALL
    n = dict(bodies=0, calls=0, foreign=0)
    foreign, links = set(), {}
    cfgs = facts(check, work, res, feats)
    for c in cfgs:
        crates, bs = bodies.read(c.facts["bodies.txt"])
        links[c.name] = " ".join(crates)
        want = {"core", "compiler_builtins"}
        if "std" not in c.feats and "supports-color" not in c.feats:
            if "alloc" in c.feats:
                want |= {"alloc"}
            extra = [x for x in crates if x not in want]
            if extra:
                viol(res, "without std the library links no std", "crate graph", c.name,
                     f"with features [{', '.join(c.feats)}] the library links {', '.join(extra)}")
        other = bodies.reachable(bs, lambda b: b.vis == "pub" and b.path not in ENV_API)
        g = bodies.Graph(bs)
        for b in bs:
            n["bodies"] += 1
            n["calls"] += len(b.calls)
            for x, at in b.externs:
                viol(res, "no operation touches the operating system", b.path, c.name, f"{b.path} calls the foreign function {x} at {at}")
            uses = [(p, at, "calls" ) for p, k, at in b.calls if k not in ("core", "colorz", "compiler_builtins")]
            uses += [(p, at, "handles") for p, at in b.types]
            for p, at, how in uses:
                n["foreign"] += 1
                foreign.add(p)
                if PROBE.match(p) or NEUTRAL.match(p):
                    continue
                if ENV.match(p):
                    if b.path in other:
                        starts = (q.path for q in bs if q.vis == "pub" and q.path not in ENV_API)
                        s = next((h for h in (g.path(q, lambda r: r == b.path) for q in starts) if h), (b.path,))
                        viol(res, "only reading the environment handles owned strings", b.path, c.name,
                             f"{' -> '.join(s)} {how} {p} at {at}, outside the environment functions")
                    continue
                viol(res, "no operation allocates or touches the operating system", b.path, c.name, f"{b.path} {how} {p} at {at}")
    # the default features
    r = check.sh(["cargo", "metadata", "--offline", "--no-deps", "--format-version", "1"], cwd=check.REPO)
    try:
        p = next(p for p in json.loads(r.stdout)["packages"] if p["name"] == "colorz")
        on, todo = set(), ["default"]
        while todo:
            f = todo.pop()
            if f not in on:
                on.add(f)
                todo += p["features"].get(f, [])
        bad = sorted({"std", "alloc", "supports-color"} & {f.replace("dep:", "").split("/")[0] for f in on})
        if bad:
            viol(res, "no std by default", "Cargo.toml", "default", f"the default features enable {', '.join(bad)}")
    except Exception as e:
        res.errors.append(f"cargo metadata: {e} {r.stderr[-500:]}")
    res.cov = dict(
        explanation="Effect analysis of the type-checked program: every resolved call, function reference, dropped or local type of every function "
        "body of the library, in every feature set, is classified by the crate and module that defines it; anything of alloc or std other "
        "than environment access (reachable only from the environment functions) and stream probing is a violation. The crate graph and "
        "the default features are compared with the allowed ones. Nothing is executed.",
        obligations=n["calls"] + n["foreign"] + len(cfgs), discharged=n["calls"] + n["foreign"] + len(cfgs) - len(res.violations),
        configurations=[c.name for c in cfgs], bodies_scanned=n["bodies"], calls_classified=n["calls"], foreign_uses=n["foreign"],
        foreign_items=sorted(foreign), linked_crates=links,
        samples=[dict(configuration=c.name, crates=links[c.name]) for c in cfgs[:3]])
    if n["bodies"] == 0:
        res.errors.append("no function body was scanned")
    return res


# ---------------------------------------------------------------- C28: sealed traits, closed literals
COLOUR_TRAITS = ("colorz::WriteColor", "colorz::ColorSpec", "colorz::OptionalColor", "colorz::ComptimeColor")


def read_traits(text):
    out, cur = {}, None
    for l in text.splitlines():
        f = l.strip("\n").split("\t")
        if f[0] == "trait":
            cur = dict(nameable=f[2] == "nameable", supers=[x.rsplit("=", 1)[0] for x in f[3].split()], blankets=[], impls=0)
            out[f[1]] = cur
        elif f[0].strip() == "blanket":
            cur["blankets"].append((f[1], f[2].split(), f[3]))
        elif f[0].strip() == "impls":
            cur["impls"] = int(f[1])
    return out


def open_traits(tr):
    """greatest set of traits that a type of another crate can be made to implement"""
    got = set(tr)
    while True:
        drop = set()
        for t in got:
            ok = lambda u: u not in tr or u in got
            own = tr[t]["nameable"] and all(ok(s) for s in tr[t]["supers"])
            if not own and not any(all(ok(b) for b in bs) for _, bs, _ in tr[t]["blankets"]):
                drop.add(t)
        if not drop:
            return got
        got -= drop


def rustc(check, cfg, src, flags, out, edition="2021"):
    dirs = sorted({os.path.dirname(p) for p in cfg.artifacts.values()})
    cmd = ["rustc", "+nightly", "--edition", edition, "--crate-type", "lib", "--emit=metadata", "-o", out, "--sysroot", check.sysroot(),
           "--error-format=json", "--check-cfg=cfg(bad)", "--extern", "colorz=" + cfg.artifacts["colorz"], *[x for d in dirs for x in ("-L", "dependency=" + d)], *flags, src]
    r = subprocess.run(cmd, capture_output=True, text=True, env={k: v for k, v in check.base_env().items() if k not in ("RUSTC_WRAPPER", "RUSTFLAGS")})
    errs = []
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error":
            lines = set()
            for s in d["spans"]:
                while s:
                    if s["file_name"] == src:
                        lines.update(range(s["line_start"], s["line_end"] + 1))
                    s = (s.get("expansion") or {}).get("span")
            errs.append((d.get("code") or {}).get("code", "") if d.get("code") else "")
            errs[-1] = (errs[-1], lines, d.get("rendered", ""))
    return r.returncode, errs, r.stderr


def programs(check, cfgs, folder, res):
    """type-check the programs of a folder: the legal part compiles, each marked part does not. (obligations, rejected programs)"""
    jobs, obligations, rejected = [], 0, {}
    wd = os.path.join(HERE, folder)
    for c in cfgs:
        if "colorz" not in c.artifacts:
            res.errors.append(f"[{c.name}] no compiled library for the witnesses")
            continue
        for w in sorted(os.listdir(wd)):
            m = re.search(r"^// editions: (.*)$", open(os.path.join(wd, w)).read(), re.M)
            jobs += [(c, w, e) for e in (m[1].split() if m else ["2021"])]

    def one(j):
        c, w, ed = j
        src = os.path.join(wd, w)
        o = os.path.join(c.dir, w + ed)
        bad = "// bad: " in open(src).read()
        return rustc(check, c, src, [], o + ".legal.rmeta", ed), rustc(check, c, src, ["--cfg", "bad"], o + ".bad.rmeta", ed) if bad else (0, [], "")

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    for (c, w, ed), ((lrc, lerr, lout), (brc, berr, bout)) in zip(jobs, outs):
        text = open(os.path.join(wd, w)).read().splitlines()
        marks = [(i + 1, l[len("// bad: "):]) for i, l in enumerate(text) if l.startswith("// bad: ")]
        end = next((i + 1 for i, l in enumerate(text) if l.startswith("// end")), len(text) + 1)
        obligations += 1
        if lrc != 0:
            if not lerr:
                res.errors.append(f"[{c.name}] {w}: {lout[-1500:]}")
            else:
                viol(res, "the legal program compiles", f"{folder}/{w}", c.name, f"a legal program (edition {ed}) no longer compiles:\n" + lerr[0][2])
            continue
        for k, (line, name) in enumerate(marks):
            obligations += 1
            stop = marks[k + 1][0] if k + 1 < len(marks) else end
            hit = [e for e in berr if any(line < x < stop for x in e[1])]
            if hit:
                rejected.setdefault(f"{w}: {name}", hit[0][0] or "compile_error")
            else:
                viol(res, "forbidden programs do not compile", f"{folder}/{w}: {name}", c.name,
                     f"this program compiles ({w} lines {line + 1}-{stop - 1}):\n" + "\n".join(text[line:stop - 1]))
    return obligations, rejected


def witnesses28(check, prop, tier, work, prev):
    res = check.Result()
    feats = plan.ALL if tier == "thorough" else plan.QUICK
    cfgs = facts(check, work, res, feats)
    obligations, arms = 0, 0
    for c in cfgs:
        tr = read_traits(c.facts["traits.txt"])
        can = open_traits(tr)
        for t in COLOUR_TRAITS:
            obligations += 1
            if t not in tr:
                res.errors.append(f"[{c.name}] trait {t} not found")
            elif t in can:
                why = [f"blanket implementation for {b[0]} at {b[2]}" for s in [t] + tr[t]["supers"] if s in tr for b in tr[s]["blankets"]]
                viol(res, "colour traits are sealed", t, c.name,
                     f"a type of another crate can implement {t}: none of its supertraits ({', '.join(tr[t]['supers']) or 'none'}) is out of reach"
                     + ("; " + "; ".join(why) if why else ""))
        for l in c.facts["macros.txt"].splitlines():
            name, pat, body = l.split("\t")
            if name != "xterm_from_code":
                continue
            arms += 1
            obligations += 1
            p = pat.strip().replace("_", "")
            m = re.match(r"^(0[xob])?([0-9a-fA-F]+?)(u8|i8|u16|i16|u32|i32|u64|i64|usize|isize)?$", p)
            if m and not body.lstrip().startswith("compile_error"):
                try:
                    v = int((m[1] or "") + m[2], 0 if m[1] else 10)
                except ValueError:
                    continue
                if v > 255:
                    viol(res, "the code macro accepts only 0..=255", f"xterm_from_code!({pat.strip()})", c.name, f"the arm ({pat.strip()}) expands to {body.strip()}")
    k, rejected = programs(check, cfgs, "witnesses", res)
    obligations += k
    res.cov = dict(
        explanation="Trait-reachability analysis (greatest fixpoint over supertraits, nameability and blanket implementations) decides which traits a "
        "type of another crate can implement; the arms of the code macro are enumerated; and programs of each forbidden shape are "
        "type-checked next to legal twins: each must be rejected, the twins accepted.",
        obligations=obligations, discharged=obligations - len(res.violations), configurations=[c.name for c in cfgs], macro_arms=arms,
        rejected_programs=rejected, samples=[dict(program=k, rejected_with=v) for k, v in list(rejected.items())[:4]])
    return res


# ---------------------------------------------------------------- C38: programs of every kind the documentation allows
def programs38(check, prop, tier, work, prev):
    res = check.Result()
    cfgs = facts(check, work, res, plan.ALL if tier == "thorough" else plan.QUICK)
    obligations, rejected = programs(check, cfgs, "witnesses38", res)
    res.cov = dict(
        explanation="Programs that use the interface in the ways it is offered (without std, prelude and unsafe code, under another crate name, next to "
        "items of the same names, in three editions; with unsized, borrowed, consumed, generic and thread-bound values) are type-checked and borrow-checked "
        "against the library; each marked part asks for a capability the inner value lacks and must be rejected.",
        obligations=obligations, discharged=obligations - len(res.violations), configurations=[c.name for c in cfgs],
        rejected_programs=rejected, samples=[dict(program=k, rejected_with=v) for k, v in list(rejected.items())[:4]])
    return res


# ---------------------------------------------------------------- C37: no unsafe code
def unsafe37(check, prop, tier, work, prev):
    res = check.Result()
    flags = ["--force-warn", "unsafe_code"]
    cfgs = facts(check, work, res, plan.ALL, flags) + facts(check, work, res, [plan.NONE, plan.EVERY], flags, True)
    n = arms = 0
    for c in cfgs:
        _, bs = bodies.read(c.facts["bodies.txt"])
        n += len(bs)
        for text in c.lints.get("colorz", []):
            viol(res, "no unsafe code", re.search(r"--> (\S+)", text)[1] if "-->" in text else "crate", c.name, text)
        for l in c.facts["macros.txt"].splitlines():
            name, pat, body = l.split("\t")
            arms += 1
            if re.search(r"(?<![\w\"])unsafe(?![\w\"])", body):
                viol(res, "exported macros expand to no unsafe code", name, c.name, f"{name}!({pat.strip()}) expands to {body.strip()[:300]}")
        # the lint must be alive
        src = os.path.join(HERE, "witnesses37", "unsafe.rs")
        r = rustc_lint(check, c, src)
        want = open(src).read().count("// unsafe")
        if r != want:
            res.errors.append(f"[{c.name}] the lint finds {r} of {want} kinds of unsafe code in the sample")
    res.cov = dict(
        explanation="The compiler's unsafe-code lint (blocks, functions, implementations, foreign declarations, linkage attributes), forced on whatever the "
        "source allows, is evaluated over the type-checked library in every feature set; the arms of exported macros are scanned for unsafe code.",
        obligations=n + arms, discharged=n + arms - len(res.violations), configurations=[c.name for c in cfgs], bodies_linted=n, macro_arms=arms,
        samples=[dict(configuration=c.name, unsafe=len(c.lints.get("colorz", []))) for c in cfgs[:3]])
    if n == 0:
        res.errors.append("no function body was linted")
    return res


def rustc_lint(check, cfg, src):
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-o", os.path.join(cfg.dir, "lint.rmeta"), "--sysroot", check.sysroot(),
           "--error-format=json", "--force-warn", "unsafe_code", src]
    r = subprocess.run(cmd, capture_output=True, text=True, env={k: v for k, v in check.base_env().items() if k not in ("RUSTC_WRAPPER", "RUSTFLAGS")})
    k = 0
    for l in r.stderr.splitlines():
        d = json.loads(l) if l.startswith("{") else {}
        k += (d.get("code") or {}).get("code") == "unsafe_code"
    return k


# ---------------------------------------------------------------- C35: plain values
def values35(check, prop, tier, work, prev):
    res = check.Result()
    cfgs = facts(check, work, res, plan.ALL if tier == "thorough" else plan.QUICK)
    src = os.path.join(HERE, "witnesses35", "values.rs")
    n = 0
    for c in cfgs:
        if "colorz" not in c.artifacts:
            res.errors.append(f"[{c.name}] no compiled library for the witness")
            continue
        rc, errs, out = rustc(check, c, src, [], os.path.join(c.dir, "values.rmeta"))
        n += sum(1 for l in open(src) if "::<" in l and l.startswith("    "))
        if rc and not errs:
            res.errors.append(f"[{c.name}] values.rs: {out[-1500:]}")
        for code, lines, text in errs:
            viol(res, "the public types are plain values", "witnesses35/values.rs", c.name, text)
    res.cov = dict(
        explanation="A program that needs every public value type to be Copy, Send, Sync, comparable (and hashable where it is a key) is type-checked against the library.",
        obligations=n, discharged=n - len(res.violations), configurations=[c.name for c in cfgs],
        samples=[dict(program="witnesses35/values.rs", type_obligations=n)])
    return res


# ---------------------------------------------------------------- C31: additive features
def features31(check, prop, tier, work, prev):
    res = check.Result()
    names = ["std", "alloc", "supports-color", "strip-colors"]
    feats = [tuple(n for i, n in enumerate(names) if m >> i & 1) for m in range(16)]
    tmp = check.Result()
    cfgs = facts(check, work, tmp, feats)
    ok = {c.name for c in cfgs}
    import itertools
    # a library that does not build in some feature set is the violation; anything else is no verdict
    for e in tmp.errors:
        if "does not compile (colorz)" in e:
            viol(res, "every feature combination builds", e.split("]")[0][1:], e.split("]")[0][1:], e)
        else:
            res.errors.append(e)
    items, pairs, n = {}, 0, 0
    for c in cfgs:
        items[frozenset(c.feats)] = (c.name, dict(l.split("\t", 1) for l in c.facts["items.txt"].splitlines() if "\t" in l))
    for a, b in itertools.permutations(items, 2):
        if not a < b:
            continue
        pairs += 1
        (an, ai), (bn, bi) = items[a], items[b]
        for k, v in ai.items():
            n += 1
            if bi.get(k) != v:
                viol(res, "more features keep every public item", k, bn,
                     f"{k}\n  with [{an}]: {v}\n  with [{bn}]: {bi.get(k, 'missing')}")
    res.cov = dict(
        explanation="The public interface of the library (every nameable item with its signature, constness, bounds, visible fields and every trait "
        "implementation) is extracted from the compiler in each feature set and compared over every pair of sets ordered by inclusion.",
        obligations=n + len(feats), discharged=n + len(feats) - len(res.violations), configurations=[c.name for c in cfgs], pairs=pairs,
        items={v[0]: len(v[1]) for v in items.values()}, samples=[dict(configuration=v[0], items=len(v[1])) for v in list(items.values())[:3]])
    if not cfgs:
        res.errors.append("no configuration builds")
    return res
