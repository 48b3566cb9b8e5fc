#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "bin"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] not in CHECKS:
        continue
    s = CHECKS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
                   "technique": s["technique"], "level": "exploration", "level_note": s["note"]})
na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check built yet")} for p in props if p["id"] not in CHECKS]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
