#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for p in glob.glob("seeded/*/meta.json"):
    m = json.load(open(p))
    rows.append((m["property"], p.split("/")[1], m["needs"]))
s = open("DESIGN.md").read()
i = s.index("\n", s.index("|---|---|---|", s.index("## Planted bugs"))) + 1
j = i
while s[j:j + 1] == "|":
    j = s.index("\n", j) + 1
s = s[:i] + "".join("| %s | %s | %s |\n" % (b, p, n) for p, b, n in sorted(rows)) + s[j:]
open("DESIGN.md", "w").write(s)
