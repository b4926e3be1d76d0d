#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.SPECS and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = dict(version=1, setup_cmd="cd /verif && python3 check.py --build-all", checks=[], not_applicable=[])
for p in props:
    s = checks.SPECS.get(p)
    if not s:
        out["not_applicable"].append(dict(property=p, reason=checks.NOT_APPLICABLE.get(p, "not claimed yet: its check is under construction")))
        continue
    out["checks"].append(dict(property=p, quick_cmd="cd /verif && python3 check.py %s --tier quick" % p, thorough_cmd="cd /verif && python3 check.py %s --tier thorough" % p,
                              technique=s["technique"], level=s["level"], level_note=s["note"]))
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed")
