#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, notes.py and properties.jsonl."""
import json
from checks import CHECKS
from notes import NOTES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        t, n = NOTES[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 run_check.py {i}",
            "thorough_cmd": f"python3 run_check.py {i} --tier thorough",
            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
