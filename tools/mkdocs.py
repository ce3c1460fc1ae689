#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from proplist import P, NA
names = set()
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert p["id"] not in names and len(p["title"]) <= 80, p["id"]
        names.add(p["id"])
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": [], "not_applicable": []}
for p in P:
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
        "technique": p["technique"],
        "level": p.get("level", "other"),
        "level_note": p["note"],
    })
for p in NA:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
