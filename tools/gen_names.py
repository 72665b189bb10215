#!/usr/bin/env python3
"""Writes harness/src/names.rs: the names of the public colour types and the oracle tables.
The name lists were taken from the pinned tree once; the CSS values come from the CSS Color Module
named-colour table (npm color-name), not from the repository."""
import json, re, subprocess, sys
src = sys.argv[1] if len(sys.argv) > 1 else '/repo/src'
o = ['//! Written by tools/gen_names.py: names of the public colour types, and oracle tables.', '']
ansi = re.findall(r'^\s+(\d+) (\w+)\s+\d+ \d+$', open(src + '/ansi.rs').read(), re.M)
assert len(ansi) == 17
rows = []
for n, name in ansi:
    n = int(n)
    if name == 'Default':
        fg, bg = 39, 49
    else:
        fg, bg = (30 + n, 40 + n) if n < 8 else (90 + n - 8, 100 + n - 8)
    rows.append(f'{name} {n} "{fg}" "{bg}"')
o.append('/// $m!{ Name index "fg" "bg" ... } with the standard codes, one entry per ANSI colour')
o.append('macro_rules! ansi_all { ($m:ident $($x:tt)*) => { $m! { $($x)* ' + ' '.join(rows[:16]) + ' } } }')
o.append('')
xs = re.findall(r'^\s+\((\d+)\)? ?(\w+)', open(src + '/xterm.rs').read(), re.M)
x = open(src + '/xterm.rs').read()
x = x[x.index('XTerm! {'):] if 'XTerm! {' in x else x[x.index('XTerm!{'):]
names = re.findall(r'(\d+)\s+(\w+)', x)
assert [int(a) for a, _ in names] == list(range(256)), len(names)
o.append('/// $m!{ code Name ... } for the 256 xterm colours')
o.append('macro_rules! xterm_all { ($m:ident $($x:tt)*) => { $m! { $($x)* ' + ' '.join(f'{a} {b}' for a, b in names) + ' } } }')
o.append('')
css = re.findall(r'^    (\w+) \((\d+), (\d+), (\d+)\)$', open(src + '/css.rs').read(), re.M)
ref = json.loads(subprocess.check_output(['node', '-e', 'import("/opt/veriftools/node/node_modules/color-name/index.js").then(m=>console.log(JSON.stringify(m.default)))']))
out = []
for n, *_ in css:
    r, g, b = ref[n.lower()]
    out.append(f'{n} {r} {g} {b}')
o.append('/// $m!{ Name red green blue ... } for the CSS named colours, values from the CSS specification')
o.append('macro_rules! css_all { ($m:ident $($x:tt)*) => { $m! { $($x)* ' + ' '.join(out) + ' } } }')
open('/verif/harness/src/names.rs', 'w').write('\n'.join(o) + '\n')
