#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and the list of properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness.registry import WHERE, NOTES  # noqa: E402

TECH = "TLA+ specification checked with TLC; histories of the real code validated against it"
props = [json.loads(s) for s in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in WHERE:
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s quick" % pid,
            "thorough_cmd": "python3 check.py %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTES[pid],
        })
    else:
        na.append({"property": pid, "reason": "no check built yet (specification planned, see DESIGN.md)"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every observation is made through the public API. Specification language: "
              "TLA+ (TLC). See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("%d checks, %d not claimed" % (len(checks), len(na)))
