#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "| planted bug | needs | caught by the quick check of |\n|---|---|---|\n"
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append(f"| `{os.path.basename(os.path.dirname(m))}` | {d['needs'].replace('|', '/')} | {d.get('missed') or d['property']} |\n")
p = V + "/DESIGN.md"
s = open(p).read()
s = s.replace("SEEDTABLE\n", HEAD)
s = s[:s.index(HEAD)] + HEAD + "".join(rows)
open(p, "w").write(s)
