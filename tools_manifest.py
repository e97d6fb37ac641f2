#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property whose module mon/cNN.py exists."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = json.load(open(os.path.join(here, "techniques.json")))
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(here, "mon", i.lower() + ".py")) or i not in TECH:
        continue
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                       technique=TECH[i][0], level="exploration", level_note=TECH[i][1]))
claimed = {c["property"] for c in checks}
m = dict(version=1, setup_cmd="chmod +x check && ./check --setup", checks=checks,
         not_applicable=[dict(property=p["id"], reason="machinery under construction") for p in props if p["id"] not in claimed])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [p["id"] for p in props if p["id"] not in claimed], "not claimed")
