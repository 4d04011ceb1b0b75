#!/usr/bin/env python3
"""addplan.py ID drivers mc[,mc..] gen[,gen..]   (mc/gen: module:cfg, gen adds :key)"""
import json, sys
p = "/verif/harness/plans.json"
d = json.load(open(p))
i, dr = sys.argv[1], sys.argv[2].split(",")
e = {"drivers": dr, "mc": [], "gen": []}
for m in [x for x in (sys.argv[3] if len(sys.argv) > 3 else "").split(",") if x]:
    a = m.split(":")
    e["mc"].append({"module": a[0], "cfg": a[1] if len(a) > 1 else a[0]})
for m in [x for x in (sys.argv[4] if len(sys.argv) > 4 else "").split(",") if x]:
    a = m.split(":")
    g = {"module": a[0], "cfg": a[1], "key": a[2] if len(a) > 2 else "ops"}
    if len(a) > 3:
        g["thorough"] = True
    e["gen"].append(g)
if not e["gen"]:
    del e["gen"]
d[i] = e
json.dump(d, open(p, "w"), indent=1, sort_keys=True)
