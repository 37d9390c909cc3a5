#!/usr/bin/env python3
"""record the confirmed instance counts from the evidence of the last (clean) runs"""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
    e = json.load(open(f))
    if e["violations"]: continue
    out[e["property"]] = dict(decided=e["coverage"]["obligations_decided"],
                              counts={k: v for k, v in e["coverage"]["rule_instances"].items() if not k.startswith("obligations by")})
json.dump(out, open(os.path.join(HERE, "minimum.json"), "w"), indent=1, sort_keys=True)
