#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        tech, note = checks.ABOUT[i]
        out["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i}",
                              "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
                              "technique": tech, "level": "model_checking", "level_note": note})
    else:
        out["not_applicable"].append({"property": i, "reason": "check still under construction"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
