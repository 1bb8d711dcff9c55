#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(here + "/tools/plant/strengthened.json"))
missed = json.load(open(here + "/tools/plant/missed.json")) if os.path.exists(here + "/tools/plant/missed.json") else {}
p = here + "/DESIGN.md"
s = open(p).read()
i = s.index("| planted bug |") if "| planted bug |" in s else len(s)
rows = ["| planted bug | property | breaks | led to |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append("| %s%s | %s | %s | %s |" % (n, " *" if n in notes else "", d["property"], d["what_it_breaks"].replace("|", "/"), "NOT CAUGHT: " + missed[n] if n in missed else notes.get(n, "")))
open(p, "w").write(s[:i].rstrip() + "\n\n" + "\n".join(rows) + "\n")
