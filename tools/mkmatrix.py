#!/usr/bin/env python3
"""Writes in DESIGN.md the table of the planted bugs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"lin-grow-clear", "sort-static-bits", "tree-search-sign", "sort-magnitude"}
MISSED |= set(open(os.path.join(V, "tools/missed.txt")).read().split())
rows = []
for i in os.listdir(os.path.join(V, "seeded")):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append((m["property"], i + ("*" if i in MISSED else ""), m["needs"]))
t = "<!-- matrix -->\n| caught by | planted bug | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in sorted(rows)) + "<!-- end -->"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s.replace("@@MATRIX@@", "<!-- matrix --><!-- end -->")
s = re.sub(r"<!-- matrix -->.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
