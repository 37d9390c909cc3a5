#!/usr/bin/env python3
"""write MANIFEST.json from sa/registry.py and the list of properties not claimed"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import registry
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for q in props:
    i = q["id"]
    if i in registry.PROPS:
        s = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="env VERIF_TIER=thorough python3 check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=s["technique"], level="other", level_note=s["note"]))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="All checks read the sources in /repo on every run (SA_REPO overrides the path) and never import or execute them.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
