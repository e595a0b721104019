#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property in CLAIMED."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "claims.py")).read())   # CLAIMED: id -> (technique, level_note); NA: id -> reason
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                           technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built for this property yet")))
m = dict(version=1,
         setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="no hooks: the checks use kameo's public API only", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Fixes of genuine defects in /repo are listed in KNOWN_FINDINGS.txt; DESIGN.md describes each check.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
