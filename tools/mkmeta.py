#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (single source)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOTES  # noqa

plans = json.load(open(os.path.join(V, "harness", "plans.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        if p.get("state"):
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "bash bin/setup", "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    if p["id"] in plans:
        man["checks"].append({
            "property": p["id"], "quick_cmd": "bin/check %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p.get("technique", "TLA+ specification checked with TLC; traces recorded from the code validated against it by TLC"),
            "level": "model_checking",
            "level_note": p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p.get("na", "specification not built yet")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not")
