#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/ and tools/caught.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(root, "tools/caught.json")))
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, 'not yet run')} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "@TABLE@" in s: s = s.replace("@TABLE@", t)
else: s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
