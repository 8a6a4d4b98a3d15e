#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (each was run against its property's quick check)."""
import glob, json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| id | property | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "\\|"), m.get("caught_by", m["property"] + " quick")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
