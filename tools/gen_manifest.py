#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = {}
exec(open(os.path.join(R, "tools", "claims.py")).read(), {"claimed": claimed})
NA = {}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks need none. See DESIGN.md."}
for p in props:
    c = claimed.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"],
            "quick_cmd": "./check %s" % p["id"],
            "thorough_cmd": "./check %s --thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"],
            "reason": NA.get(p["id"], "Check under construction; not claimed yet.")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
