#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of plans and notes below."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        note, tech = plans.NOTES[i[0]]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": tech,
            "level": "model_checking",
            "level_note": note})
    else:
        na.append({"property": i, "reason": "not yet claimed: its check is still being built"})
m = {"version": 1, "setup_cmd": "cd harness && cargo build --offline --quiet", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks: everything is driven and observed through the public API of the crate. "
              "See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
