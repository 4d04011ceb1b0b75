#!/usr/bin/env python3
"""Development tool: plant.py PLANT.py [id ...]
PLANT.py defines PLANTS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)].
Each change is made in a scratch copy of /repo, confirmed there (demo passes without it and
fails with it, stable tests still pass) and stored as seeded/<id>/."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = """#!/bin/bash
# cwd: the repository; exits 0 when the behaviour is right
export PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, src, **k):
    env = dict(os.environ, PYTHONPATH=src, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(p, quick=False):
    d = "/tmp/plant-%s-%d" % (p["id"], os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    try:
        subprocess.check_call(["cp", "-a", "/repo", d])
        native = False
        for f, old, new in p["edits"]:
            q = os.path.join(d, f)
            s = open(q).read()
            if s.count(old) != 1:
                return p["id"], "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
            open(q, "w").write(s.replace(old, new))
            native |= f.endswith((".pyx", ".cpp", ".pxd"))
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        if not diff:
            return p["id"], "no diff"
        if native:
            r = run(["bash", "-c", "cd src/skmultiflow && for f in */*.pyx; do rm -f ${f%%.pyx}.c; done; cd ../..; "
                     "%s setup.py build_ext --inplace" % PY], d, "")
            if r.returncode:
                return p["id"], "build failed " + r.stdout[-800:]
        demo = os.path.join(d, ".git", "demo.py")
        open(demo, "w").write(p["demo"])
        r = run([PY, demo], "/repo", "/repo/src", timeout=280)
        if r.returncode:
            return p["id"], "demo fails on the unchanged tree: " + r.stdout[-600:]
        r = run([PY, demo], d, d + "/src", timeout=280)
        if r.returncode == 0:
            return p["id"], "demo does not fail with the change"
        out = r.stdout.strip().splitlines()[-1:] if r.stdout else []
        if not quick:
            run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "-n", "4", "--timeout=300",
                 "--basetemp=/tmp/bt%s" % p["id"].replace("-", "").replace(".", ""), "-o", "junit_family=xunit2", "--junitxml=%s/.git/j.xml" % d, "tests"], d, d + "/src")
            run(["/usr/bin/python3", "/opt/vp/results.py", d + "/.git/o.json", "junit:%s/.git/j.xml" % d], d, "")
            o = json.load(open(d + "/.git/o.json"))
            o = set(o.get("passed", o.get("stable", [])))
            miss = sorted(STABLE - o)
            if miss:
                return p["id"], "breaks tests: %s" % miss[:4]
        s = os.path.join(V, "seeded", p["id"])
        os.makedirs(s, exist_ok=True)
        open(s + "/patch.diff", "w").write(diff)
        open(s + "/demo.py", "w").write(p["demo"])
        open(s + "/demo.sh", "w").write(DEMO_SH)
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                  open(s + "/meta.json", "w"), indent=1)
        return p["id"], "ok %s" % out
    except Exception as e:      # noqa
        return p["id"], "error %r" % e
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree("/tmp/bt" + p["id"].replace("-", "").replace(".", ""), ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("plants", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    ps = [p for p in m.PLANTS if not want or p["id"] in want]
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(lambda p: one(p, "--quick" in sys.argv), ps):
            print(i, r, flush=True)


main()
