#!/usr/bin/env python3
"""fills the table of planted bugs in DESIGN.md (between the heading and the end of the file)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STAR = set(open(V + "/tools/bugs/missed-at-first.txt").read().split())
rows = ["| bug | property | needs | what breaks |", "|-----|----------|-------|-------------|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    rows.append("| %s%s | %s | %s | %s |" % (i, "*" if i in STAR else "", m["property"], m["needs"], m["what_it_breaks"]))
p = V + "/DESIGN.md"
s = open(p).read()
mark = "and made a check stronger are marked *.\n\n"
s = s[:s.index(mark) + len(mark)] + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows) - 2, "bugs")
