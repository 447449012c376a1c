#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/caught.txt (lines: ID caught|missed [remark])."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(os.path.join(here, "tools", "caught.txt")):
    a = l.split(None, 2)
    if a: res[a[0]] = (a[1], a[2].strip() if len(a) > 2 else "")
out = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    r, rem = res.get(i, ("?", ""))
    out.append("| %s | %s | %s | %s%s |" % (i, m["property"], m["needs"].replace("|", "/"), r, ("; " + rem) if rem else ""))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
a, b = "<!-- planted bugs -->\n", "<!-- end -->\n"
t = t[:t.index(a) + len(a)] + "\n".join(out) + "\n" + t[t.index(b):]
open(p, "w").write(t)
