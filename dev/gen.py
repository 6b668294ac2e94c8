#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from dev/spec.py (the properties) and sa/registry.py (the checks)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "sa"), os.path.join(V, "dev")]
from spec import PROPS, NOTES
from registry import PROPS as CHECKS
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in CHECKS:
        _, level, tech = CHECKS[p["id"]]
        c = f"python3 /verif/check.py {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c, "technique": tech, "level": level, "level_note": p["note"]})
    else: na.append({"property": p["id"], "reason": p["na"]})
extra = set(CHECKS) - set(ids)
assert not extra, extra
json.dump({"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": checks, "not_applicable": na, "notes": NOTES}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
