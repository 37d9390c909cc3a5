#!/usr/bin/env python3
"""known.py fixed ID COMMIT TEXT | known.py add ID KEY TEXT"""
import json, os, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(F)) if os.path.exists(F) else dict(findings=[], fixed=[])
a = sys.argv[1:]
if a[0] == "fixed": d["fixed"].append("fixed: property=%s %s %s" % (a[1], a[2], a[3]))
else: d["findings"].append(dict(property=a[1], key=a[2], what=a[3], status="known"))
json.dump(d, open(F, "w"), indent=1)
