#!/usr/bin/env python3
"""Collects the rules each check ran (from evidence/) into dev/rules.json, for DESIGN.md."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
for f in sorted(glob.glob(os.path.join(V, "evidence", "*.json"))):
    e = json.load(open(f))
    d[e["property"]] = ["%s" % k for k in sorted(e["coverage"]["rules"])]
with open(os.path.join(V, "dev", "rules.json"), "w") as f:
    json.dump(d, f, indent=0, sort_keys=True)
    f.write("\n")
print(len(d), sum(map(len, d.values())))
