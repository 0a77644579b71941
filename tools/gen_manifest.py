#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
from manifest_data import DATA
checks = []
for i in ids:
    if i not in DATA:
        continue
    tech, level, note = DATA[i]
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                   "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in DATA],
     "notes": "No hooks in /repo: the checks drive the built server from outside and the packages through their exported API."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
