#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (a maintenance tool, not a check)."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
rows = []
for f in glob.glob(H + "/seeded/*/meta.json"):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (d["property"], os.path.basename(os.path.dirname(f)), d["needs"]))
t = open(H + "/DESIGN.md").read()
head = "| property | planted bug | needs |\n|---|---|---|\n"
a = t.index(head) + len(head)
b = t.index("\n\n", a)
open(H + "/DESIGN.md", "w").write(t[:a] + "\n".join(sorted(rows)) + t[b:])
