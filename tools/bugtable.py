#!/usr/bin/env python3
"""Rewrites the table of planted bugs in section 5 of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = {}
for i in sorted(os.listdir(V + "/seeded")):
    d.setdefault(json.load(open(f"{V}/seeded/{i}/meta.json"))["property"], []).append(i)
rows = "\n".join(f"| {p} | " + ", ".join(d[p]) + " |" for p in sorted(d)) + "\n"
s = open(V + "/DESIGN.md").read()
h, t = s.split("## 5. ", 1)
t = re.sub(r"(\| C\d\d \| .*\|\n)+", lambda m: rows, t, count=1)
open(V + "/DESIGN.md", "w").write(h + "## 5. " + t)
