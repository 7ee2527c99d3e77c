#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOTE, TECHNIQUE
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if i not in PROPS:
        na.append({"property": i, "reason": "check under construction"})
        continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique") or TECHNIQUE[p["kind"]],
        "level": p["level"],
        "level_note": (p.get("note") or NOTE[p["kind"]]) + (NOTE["scaled"] if p.get("scaled") else ""),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is checked through the public API. Eleven fix: commits in /repo, see known-findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
