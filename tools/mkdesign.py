#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (bounds per property) from jobs.py."""
import os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from jobs import PROPS
B, E = "<!-- bounds -->", "<!-- /bounds -->"
out = ["", "| id | decided over | not covered |", "|---|---|---|"]
for p, d in sorted(PROPS.items()):
    b = d.get("bounds", "")
    if d.get("bounds_thorough"):
        b += ". *Thorough:* " + d["bounds_thorough"]
    n, t = len(d["quick"]), len(d.get("thorough") or d["quick"])
    out.append(f"| {p} {d['title']} ({n}/{t} jobs) | {b.replace('|', '/')} | {d.get('outside', '').replace('|', '/')} |")
f = os.path.join(here, "DESIGN.md")
s = open(f).read()
i, j = s.index(B) + len(B), s.index(E)
open(f, "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])

# planted bugs
import json, glob
B, E = "<!-- seeded -->", "<!-- /seeded -->"
rows = []
for m in glob.glob(os.path.join(here, "seeded", "*", "meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"].replace("|", "/")))
out = ["", "| caught by | planted bug | what it breaks |", "|---|---|---|"] + [f"| {p} | `{n}` | {w} |" for p, n, w in sorted(rows)]
s = open(f).read()
i, j = s.index(B) + len(B), s.index(E)
open(f, "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])
