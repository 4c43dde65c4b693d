#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
rows.sort()
t = "| check | bug | needs | breaks |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % tuple(str(x).replace("|", "\\|") for x in r) for r in rows)
p = V + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- table -->\n", "<!-- end -->\n"
if b not in s:
    s = s.replace("@@TABLE@@\n", b + e)
s = re.sub(re.escape(b) + "(?s:.*)" + re.escape(e), lambda _: b + t + e, s)
open(p, "w").write(s)
