#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seeded_results.json
(written by plant.py)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seeded_results.json"))
rows = ["<!-- table -->", "", "| id | what it breaks | needs | quick check of its property |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f))
    rows.append("| %s | %s | %s | %s %s |" % (i, m["what_it_breaks"].replace("|", "\\|"), str(m["needs"]).replace("|", "\\|"), m["property"], res.get(i, "not run")))
d = open(V + "/DESIGN.md").read().split("<!-- table -->")[0]
open(V + "/DESIGN.md", "w").write(d + "\n".join(rows) + "\n")
