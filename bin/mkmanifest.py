#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and manifest_levels.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan, manifest_levels as L
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=[], not_applicable=[], notes=L.NOTES)
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in plan.PLAN and i in L.TECH:
        m["checks"].append(dict(property=i, quick_cmd="python3 bin/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + i,
                                technique=L.TECH[i], level=L.LEVEL.get(i, "exploration"), level_note=L.NOTE[i]))
    else:
        m["not_applicable"].append(dict(property=i, reason=L.NA.get(i, "not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
