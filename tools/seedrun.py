#!/usr/bin/env python3
"""Development tool: run the checks against every planted change, in scratch clones of /repo.
seedrun.py [id ...]"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
W = "/tmp/seedrepo-%d" % os.getpid()
for i in ids:
    subprocess.check_call("rm -rf %s && cp -a /repo %s && git -C %s reset -q --hard HEAD" % (W, W, W), shell=True)
    d = os.path.join(V, "seeded", i)
    if not os.path.exists(d + "/meta.json"):
        print(d, "not there")
        continue
    prop = json.load(open(d + "/meta.json"))["property"]
    a = subprocess.run(["git", "-C", W, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        print(i, prop, "PATCH DOES NOT APPLY", a.stderr[:200], flush=True)
        continue
    r = subprocess.run([V + "/bin/check", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W))
    hit = r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout
    why = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")][:1]
    print(i, prop, "caught" if hit else "MISSED rc=%d" % r.returncode, why, flush=True)
subprocess.check_call(["rm", "-rf", W])
