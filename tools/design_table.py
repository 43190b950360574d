#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (tools/caught.json: id -> checks)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
caught = json.load(open(os.path.join(here, "tools/caught.json")))
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['needs']} | {caught.get(d, '?')} |")
t = "<!-- table -->\n" + "\n".join(rows) + "\n"
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@\n", t)
else:
    s = s[: s.index("<!-- table -->")] + t
open(p, "w").write(s)
