#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    rows.append("| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
p = root + "/DESIGN.md"
s = open(p).read()
s, n = re.subn(r"\| bug \| check \|.*?\n\|---.*?\n(\|.*\n)*", lambda m: "| bug | check | needs | breaks |\n|---|---|---|---|\n" + "".join(rows), s)
assert n == 1
open(p, "w").write(s)
