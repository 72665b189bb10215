#!/usr/bin/env python3
"""the table of planted bugs in DESIGN.md (between the markers)"""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = root + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@TABLE@", t) if "@TABLE@" in s else re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2)
