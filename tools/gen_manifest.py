#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the levels in tools/levels.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
L = json.load(open(os.path.join(here, "tools", "levels.json")))
NA = {
 "G01": "a distribution over random draws is not a pre/postcondition of any call; only the support and the sum of the draws are (S06)",
 "G02": "the figure is drawn by matplotlib; no contract within reach relates pixels to field values",
 "G03": "the values come from PyMieScatt, which is not installed here; a contract on it would be assumed, not decided",
}
checks = []
for p in P:
    i = p["id"]
    if i in NA:
        continue
    lv = L[i]
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                       technique=lv["technique"], level=lv["level"], level_note=lv["note"]))
doc = dict(version=1, setup_cmd="./setup", checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes="No hooks in /repo. /repo carries only 'fix:' commits, listed in known_findings.jsonl.")
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
