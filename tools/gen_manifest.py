#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in mc/checks, everything else not_applicable for now."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/mc/checks/{i.lower()}.py"):
        m = importlib.import_module(f"mc.checks.{i.lower()}")
        checks.append({"property": i, "quick_cmd": f"./run.py {i} quick", "thorough_cmd": f"./run.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "level": m.LEVEL,
                       "technique": m.TECHNIQUE, "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks run the compiler from /repo's working tree (TEALISH_REPO overrides the location); no hooks in /repo."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
