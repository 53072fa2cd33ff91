#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (and tools/missed.txt)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(os.listdir(os.path.join(root, "seeded")))
missed = set(open(os.path.join(root, "tools", "missed.txt")).read().split()) if os.path.exists(os.path.join(root, "tools", "missed.txt")) else set()
rows = ["| bug | property | breaks | caught by |", "|---|---|---|---|"]
for i in ids:
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), "missed" if i in missed else m["property"] + " quick"))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: "<!-- bugs -->\n%d bugs are kept in seeded/, %d of them caught by the quick check of their property.\n\n%s\n<!-- /bugs -->" % (len(ids), len(ids) - len(missed & set(ids)), "\n".join(rows)), s, flags=re.S)
open(p, "w").write(s)
print(len(ids))
