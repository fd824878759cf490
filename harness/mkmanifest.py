#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table of checks"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import gens
V = os.path.dirname(H)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = gens.CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "no check yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 harness/check.py " + p["id"],
        "thorough_cmd": "python3 harness/check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "TLA+ specification; TLC checks traces recorded from the real code against it" +
                           (", and design models" if c.get("mc") else "")),
        "level": c["level"],
        "level_note": c.get("note", "Every trace explored is decided exactly by the specification; inputs: " + c.get("domain", "") + "."),
    })
m = {"version": 1, "setup_cmd": "python3 harness/build.py plain tsan", "checks": checks, "not_applicable": na,
     "notes": "TLA+ checked with TLC; see DESIGN.md.  No hooks in /repo: everything needed is observable through the public module."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
