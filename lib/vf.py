"""Check runner: TLC model checking of the specifications, behaviours generated
from them, traces recorded from the implementation in /repo, TLC validation of
the traces, verdict and evidence."""
import glob
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class MachineryError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, env=env, cwd=cwd, text=True, errors="replace")


# ---------------------------------------------------------------- builds
def java_classes(scratch):
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:12]
    d = os.path.join(VERIF, ".build", "java-" + h)
    if os.path.exists(os.path.join(d, "Real64.class")):
        return d
    t = os.path.join(scratch, "java")
    os.makedirs(t, exist_ok=True)
    r = sh(["javac", "-d", t, "-cp", TLAJARS] + src, timeout=120)
    if r.returncode:
        raise MachineryError("javac: " + r.stdout)
    try:
        os.makedirs(os.path.dirname(d), exist_ok=True)
        tmp = d + ".%d" % os.getpid()
        shutil.copytree(t, tmp)
        os.rename(tmp, d)
        return d
    except OSError:
        return t


def native_inputs(root):
    out = []
    for base, dirs, files in os.walk(os.path.join(root, "src")):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith((".pyx", ".pxd", ".pxi", ".cpp", ".h", ".hpp")) or f == "setup.py":
                out.append(os.path.join(base, f))
    out.append(os.path.join(root, "setup.py"))
    return out


def source_path(scratch):
    """Path to put on PYTHONPATH.  /repo/src itself when its compiled extensions
    were built from the current native sources, else a scratch build."""
    ok = False
    stamp = os.path.join(REPO, "build", ".stamp")
    sos = glob.glob(REPO + "/src/skmultiflow/*/*.so")
    if os.path.exists(stamp) and len(sos) >= 3:
        want = {}
        for line in open(stamp):
            p = line.split()
            if len(p) == 2 and len(p[0]) == 64:
                want[p[1]] = p[0]
        have = {}
        for f in native_inputs(REPO) + sos:
            rel = os.path.relpath(f, REPO)
            have[rel] = hashlib.sha256(open(f, "rb").read()).hexdigest()
        ok = want == have
    if ok:
        return os.path.join(REPO, "src")
    d = os.path.join(scratch, "native")
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"),
                    ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    for f in os.listdir(REPO):
        if os.path.isfile(os.path.join(REPO, f)) and os.path.getsize(os.path.join(REPO, f)) < 1 << 20:
            shutil.copy(os.path.join(REPO, f), d)
    for p in glob.glob(d + "/src/skmultiflow/*/*.pyx"):
        c = p[:-4] + ".c"
        if os.path.exists(c):
            os.unlink(c)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", LANG="C.UTF-8")
    env.pop("PYTHONPATH", None)
    r = sh([VENV, "setup.py", "build_ext", "--inplace"], timeout=600, env=env, cwd=d)
    if r.returncode or len(glob.glob(d + "/src/skmultiflow/*/*.so")) < 3:
        raise MachineryError("building the extensions failed:\n" + r.stdout[-3000:])
    return os.path.join(d, "src")


# ---------------------------------------------------------------- TLC
def tlc(args, scratch, classes, env=None, timeout=900, heap="4g"):
    md = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", classes + ":" + TLAJARS,
           "-Djava.io.tmpdir=" + md, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE",
           "-deadlock"] + args
    try:
        r = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out: %s" % args)
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_counts(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    g = lambda k: int(m.group(k).replace(",", ""))
    return g(1), g(2)


class Stats:
    def __init__(self):
        self.states = self.transitions = self.accepted = self.rejected = 0
        self.mc, self.gen, self.traces_by_spec = [], [], {}
        self.events = 0
        self.lock = threading.Lock()


def model_check(module, cfg, scratch, classes, stats, workers=2, timeout=900):
    t0 = time.time()
    rc, out = tlc(["-workers", str(workers), "-config", cfg, module + ".tla"],
                  scratch, classes, timeout=timeout)
    gen, dist = tlc_counts(out)
    if rc != 0 or "No error has been found" not in out:
        raise MachineryError("model checking %s/%s failed:\n%s" % (module, cfg, out[-4000:]))
    with stats.lock:
        stats.states += dist
        stats.transitions += gen
        stats.mc.append({"module": module, "config": cfg, "distinct_states": dist,
                         "states_generated": gen, "secs": round(time.time() - t0, 1)})


def generate(module, cfg, scratch, classes, stats, seed, extra=(), timeout=600):
    """Run a generator configuration; every line '@GEN <json>' is a behaviour."""
    rc, out = tlc(["-workers", "1", "-seed", str(seed), "-config", cfg] + list(extra) +
                  [module + ".tla"], scratch, classes, timeout=timeout)
    if rc != 0:
        raise MachineryError("generating from %s/%s failed:\n%s" % (module, cfg, out[-4000:]))
    behs = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@GEN '):
            s = json.loads(line)      # TLC prints strings with \" escapes
            behs.append(json.loads(s[5:]))
    gen, dist = tlc_counts(out)
    with stats.lock:
        stats.states += dist
        stats.transitions += gen
        stats.gen.append({"module": module, "config": cfg, "behaviours": len(behs),
                          "distinct_states": dist})
    if not behs:
        raise MachineryError("no behaviours from %s/%s:\n%s" % (module, cfg, out[-2000:]))
    return behs


def validate(spec, traces, scratch, classes, stats, workers=8):
    """Returns list of (trace, event index, reason) for rejected traces."""
    bad = []
    todo = list(range(len(traces)))
    rounds = 0
    while todo:
        rounds += 1
        f = os.path.join(scratch, "traces-%s-%d.json" % (spec, rounds))
        with open(f, "w") as h:
            json.dump([dict({k: traces[k0][k] for k in ("name", "cfg", "ev")},
                            early=not traces[k0]["cfg"]) for k0 in todo], h)
        rc, out = tlc(["-workers", str(workers), "-config", "TraceCheck.cfg", spec + ".tla"],
                      scratch, classes, env={"TRACES": f}, heap="10g")
        verdict = {}
        for line in out.splitlines():
            line = line.strip()
            m = re.match(r'"@ACC (\d+)"$', line)
            if m:
                verdict[int(m.group(1)) - 1] = None
                continue
            m = re.match(r'"@BAD (\d+) (\d+) (.*)"$', line)
            if m:
                verdict[int(m.group(1)) - 1] = (int(m.group(2)), m.group(3))
        gen, dist = tlc_counts(out)
        with stats.lock:
            stats.states += dist
            stats.transitions += gen
        if rc == 0 and "No error has been found" in out:
            miss = [k for k in range(len(todo)) if k not in verdict]
            if miss:
                raise MachineryError("no verdict for %d traces of %s (%s)\n%s" % (
                    len(miss), spec, traces[todo[miss[0]]]["name"], out[-3000:]))
            for k, v in sorted(verdict.items()):
                if v:
                    bad.append((traces[todo[k]], v[0], v[1]))
            return bad
        # an observed value the specification cannot even interpret
        m = None
        for m in re.finditer(r"^/?\\?/? ?tr = (\d+)", out, re.M):
            pass
        i = None
        for i in re.finditer(r"^/?\\?/? ?i = (-?\d+)", out, re.M):
            pass
        if "OutOfMemory" in out or m is None:
            raise MachineryError("TLC failed on traces of %s:\n%s" % (spec, out[-4000:]))
        k = int(m.group(1)) - 1
        err = re.search(r"Error: (.*(?:\n.*){0,6})", out)
        sys.stderr.write("TLC: %s\n" % (err.group(0)[:1500] if err else ""))
        bad.append((traces[todo[k]], int(i.group(1)) + 1 if i else 0,
                    "observation outside the specification's value domain"))
        del todo[k]
        if rounds > 6:
            return bad
    return bad


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    res.append(d)
    return res


# ---------------------------------------------------------------- check
def run_check(pid, tier, seed, keep=False):
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    plan = json.load(open(os.path.join(VERIF, "harness", "plans.json")))[pid]
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    stats = Stats()
    errors = []
    try:
        classes = java_classes(scratch)
        src = source_path(scratch)

        def guard(fn, *a, **k):
            def f():
                try:
                    fn(*a, **k)
                except Exception as e:       # noqa
                    errors.append(e)
            t = threading.Thread(target=f)
            t.start()
            return t

        behs = {}

        def dogen(g):
            cfg = g["cfg"] + ("T" if tier == "thorough" and g.get("thorough") else "")
            behs[g["key"]] = generate(g["module"], cfg + ".cfg", scratch, classes, stats, seed,
                                      extra=g.get("extra", []))

        ths = [guard(dogen, g) for g in plan.get("gen", [])]
        for t in ths:
            t.join()
        if errors:
            raise errors[0]
        mcs = []
        for m in [] if os.environ.get("VERIF_NOMC") else plan.get("mc", []):      # VERIF_NOMC: development only
            if tier == "quick" and m.get("tier") == "thorough":
                continue
            cfg = m["cfg"]
            if tier == "thorough" and m.get("thorough"):
                cfg = m["thorough"]
            mcs.append(guard(model_check, m["module"], cfg + ".cfg", scratch, classes, stats,
                             timeout=850 if tier == "quick" else 6000))
        # drivers
        bf = os.path.join(scratch, "behs.json")
        json.dump(behs, open(bf, "w"))
        env = dict(os.environ, PYTHONPATH=src, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", HOME=scratch,
                   VERIF_SCRATCH=scratch, LANG="C.UTF-8", COLUMNS="80")
        traces = []
        hard = []
        for mod in plan["drivers"]:
            out = os.path.join(scratch, "traces-%s.json" % mod)
            wd = os.path.join(scratch, "cwd-" + mod)
            os.makedirs(wd, exist_ok=True)
            try:
                r = sh([VENV, os.path.join(VERIF, "lib", "drive.py"), mod, out, str(seed), tier, bf],
                       timeout=600 if tier == "quick" else 5400, env=env, cwd=wd)
                txt = r.stdout
            except subprocess.TimeoutExpired as e:
                txt = "driver timed out"
            if os.environ.get("VERIF_VERBOSE"):
                sys.stderr.write(txt[-6000:])
            if "HARNESS-ERROR" in txt and not os.path.exists(out):
                raise MachineryError("driver %s: %s" % (mod, txt[-2000:]))
            if not os.path.exists(out):
                hard.append((mod, txt[-3000:]))
                continue
            traces += json.load(open(out))
        for t in mcs:
            t.join()
        if errors:
            raise errors[0]
        byspec = {}
        for t in traces:
            byspec.setdefault(t["spec"], []).append(t)
            stats.events += len(t["ev"])
        if keep:
            json.dump(traces, open("/tmp/last-traces-%s.json" % pid, "w"))
        bads = []
        jobs = sorted(byspec.items(), key=lambda kv: -sum(len(t["ev"]) for t in kv[1]))
        sem = threading.Semaphore(3)

        def val(spec, ts):
            with sem:
                b = validate(spec, ts, scratch, classes, stats, workers=4)
            with stats.lock:
                bads.extend(b)
                stats.traces_by_spec[spec] = len(ts)
        ths = [guard(val, s, ts) for s, ts in jobs]
        for t in ths:
            t.join()
        if errors:
            raise errors[0]
        # verdicts
        kfs = {d["id"]: d for d in known_findings(pid)}
        viol, known = [], []
        for t, ev, why in bads:
            d = kfs.get(t.get("kf") or "")
            if d and re.search(d["match"], why):
                known.append((d, t, ev, why))
            else:
                viol.append((t, ev, why))
        nacc = len(traces) - len(bads)
        rep = os.path.join(VERIF, "replays")
        lines = []
        if viol or hard:
            os.makedirs(rep, exist_ok=True)
        groups = {}
        for t, ev, why in viol:
            k = (t["spec"], t["name"].split("/")[0], why[:150])
            groups[k] = groups.get(k, 0) + 1
        for k, n in sorted(groups.items(), key=lambda kv: -kv[1])[:40]:
            print("  %5d x %s %s: %s" % ((n,) + k))
        for n, (t, ev, why) in enumerate(sorted(viol, key=lambda v: v[0]["name"])[:8]):
            p = os.path.join(rep, "%s-%d.json" % (pid, n))
            json.dump({"property": pid, "scenario": t["name"], "spec": t["spec"], "seed": seed,
                       "tier": tier, "rejected_at_event": ev, "violated_clause": why,
                       "cfg": t["cfg"], "events_up_to_violation": t["ev"][:ev],
                       "reproduce": "VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY='%s' %s/bin/check %s" % (
                           seed, tier, t["name"], VERIF, pid)}, open(p, "w"), indent=1)
            print("  scenario %s: event %d: %s" % (t["name"], ev, why))
            lines.append("VIOLATION property=%s replay=%s" % (pid, p))
        for n, (mod, txt) in enumerate(hard):
            p = os.path.join(rep, "%s-driver-%s.txt" % (pid, mod))
            open(p, "w").write(txt)
            print("  driver %s died: %s" % (mod, txt[-400:]))
            lines.append("VIOLATION property=%s replay=%s" % (pid, p))
        for d, t, ev, why in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
        samples = []
        seen = set()
        for t in traces:
            if t["spec"] not in seen and len(samples) < 6:
                seen.add(t["spec"])
                s = {"spec": t["spec"], "scenario": t["name"], "cfg": t["cfg"], "events": t["ev"][:6]}
                js = json.dumps(s)
                samples.append(s if len(js) < 6000 else js[:3000] + "...")
        man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        chk = [c for c in man["checks"] if c["property"] == pid]
        ev = {"property": pid, "tier": tier, "seed": seed,
              "level": chk[0]["level"] if chk else "model_checking",
              "coverage": {"states": stats.states, "transitions": stats.transitions,
                           "traces_validated_against_impl": nacc,
                           "traces_rejected": len(bads), "trace_events": stats.events,
                           "model_checking_runs": stats.mc, "generated_behaviours": stats.gen,
                           "traces_by_spec": stats.traces_by_spec,
                           "samples": samples},
              "assumptions": plan.get("assumptions", []),
              "wall_s": round(time.time() - t0, 1), "violations": len(viol) + len(hard)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: %d traces (%d events) validated, %d rejected (%d known), %d model states, %.1fs" % (
            pid, tier, nacc, stats.events, len(bads), len(known), stats.states, time.time() - t0))
        for l in lines:
            print(l)
        return 1 if lines else 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        rc = run_check(pid, tier, seed, keep="--keep" in sys.argv)
    except MachineryError as e:
        print("ERROR (the check itself failed): %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
