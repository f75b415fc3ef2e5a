#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import jobs
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in jobs.PROPS:
        d = jobs.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3); counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "bounded: " + d["bounds"] + ". Outside: " + d.get("outside", "larger inputs") + ".",
        })
    else:
        na.append({"property": i, "reason": getattr(jobs, "NOT_APPLICABLE", {}).get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
