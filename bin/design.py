#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json and bin/catches.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(f"{V}/bin/catches.json")) if os.path.exists(f"{V}/bin/catches.json") else {}
rows = []
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append(f"| {b} | {m['needs']} | {', '.join(c.get(b, [m['property']]))} |")
s = open(f"{V}/DESIGN.md").read()
s = re.sub(r"<!-- CATCH -->.*?(?=\n## 6)", lambda _: "<!-- CATCH -->\n| bug | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n", s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
