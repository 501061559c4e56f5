#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
NOTES = json.load(open("levels.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        t, n = NOTES.get(i, NOTES["default"])
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
