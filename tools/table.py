#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = ["<!-- table: tools/table.py -->", "| planted bug | what it breaks |", "|---|---|"]
for b in sorted(os.listdir("seeded")):
    rows.append(f"| {b} | {json.load(open(f'seeded/{b}/meta.json'))['what_it_breaks']} |")
s = open("DESIGN.md").read()
i, j = s.index(rows[0]), s.index("## 8.")
open("DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n\n" + s[j:])
