#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it needs in order to manifest | caught by |", "|---|---|---|---|"]
def one(s): return " ".join(s.replace("|", "\\|").split())
for p in sorted(glob.glob(root + "/seeded/*/meta.json"), key=lambda p: (len(os.path.basename(os.path.dirname(p))), p)):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], one(m["needs"]), m.get("caught_by", m["property"])))
d = root + "/DESIGN.md"
s = open(d).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(d, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
