#!/usr/bin/env python3
"""Writes the table of the planted bugs into DESIGN.md (all were caught by the
quick check of their property; see mkseed.py --run)."""
import json, os
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
MISSED = {}   # id -> remark
rows = ["| bug | check | needs | breaks | caught |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"), MISSED.get(b, "quick")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
mark = "<!-- planted bugs -->\n"
s = s.split(mark)[0] + mark + "\n".join(rows) + "\n"
open(p, "w").write(s)
