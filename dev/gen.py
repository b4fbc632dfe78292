#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/."""
import importlib
import json
import os
import pkgutil
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import meta
for m in sorted(x.name for x in pkgutil.iter_modules(meta.__path__)):
    importlib.import_module("meta." + m)
reg = importlib.import_module("rules.registry").REGISTRY
na = dict(meta.NOT_APPLICABLE)
props = sorted(meta.PROPS, key=lambda p: p["id"])
assert len({p["id"] for p in props}) == len(props)
for p in props:
    assert p["id"] in reg or p["id"] in na, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], "sentences")
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
assert set(reg) <= {p["id"] for p in props}, set(reg) - {p["id"] for p in props}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"] or [], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 /verif/fcx/db.py",
       "checks": [{"property": p["id"], "quick_cmd": "/verif/check " + p["id"], "thorough_cmd": "/verif/check " + p["id"] + " --thorough",
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "static analysis: " + p["technique"], "level": "other",
                   "level_note": p["note"]} for p in props if p["id"] not in na],
       "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
       "notes": "No hooks: the analysis reads /repo's sources and changes nothing there. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
design = os.path.join(V, "DESIGN.md")
text = open(design).read()
mark = "<!-- the part below is written by dev/gen.py -->\n"
assert mark in text
out = [text[:text.index(mark) + len(mark)]]
AREA = {"S": "Secure aggregation", "B": "Base library", "C": "Confidential computing", "D": "Client: protocol, runs and network", "E": "Client: storage and execution",
        "F": "Demo server (Python)", "G": "Tracing", "N": "Not applicable"}
for k in "SBCDEFGN":
    out.append("\n### %s\n" % AREA[k])
    for p in props:
        if p["id"][0] != k:
            continue
        out.append("\n**%s %s**\n" % (p["id"], p["title"]))
        if p["id"] in na:
            out.append("  Not applicable: %s\n" % na[p["id"]])
            continue
        ev = os.path.join(V, "dev", "rules.json")
        rules = json.load(open(ev)).get(p["id"], []) if os.path.exists(ev) else []
        out.append("  Holds %s. %s\n" % (p["q"], p["why"]))
        out.append("  Decided by %s.\n" % p["technique"])
        if rules:
            out.append("  Rules: %s.\n" % ", ".join(rules))
        if p["note"]:
            out.append("  Limits: %s\n" % p["note"])
open(design, "w").write("".join(out))
print(len(props), "properties,", len(man["checks"]), "checks")
