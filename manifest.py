#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = json.load(open(os.path.join(H, "checks.json")))
out = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[],
           notes="See DESIGN.md. No hooks: every check drives exported entry points of /repo as it is.")
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                                  thorough_cmd="python3 check.py %s thorough" % i,
                                  technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        out["not_applicable"].append(dict(property=i, reason="not built yet"))
json.dump(out, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
