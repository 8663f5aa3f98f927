#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from checks import CHECKS
from checks import TECH
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=[], not_applicable=[])
for p in props:
    if p["id"] in CHECKS:
        t = TECH[p["id"]]
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
            thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=t[0], level="exploration", level_note=t[1]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="check under construction, not claimed"))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not claimed")
