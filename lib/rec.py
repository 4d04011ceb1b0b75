"""Trace recording helpers, used inside the driver processes (repo's venv)."""
import hashlib
import json
import math
import signal
import sys
import time
import traceback

import numpy as np


def enc(x):
    """Encode a Python value for TLC: ints as ints, floats as strings."""
    if x is None:
        return "None"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2 ** 31 - 1 else repr(float(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        return repr(x)
    if isinstance(x, str):
        return x
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return enc(x.item())
        return [enc(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((enc(v) for v in x), key=repr)
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if hasattr(x, "to_numpy"):
        return enc(x.to_numpy())
    return "obj:" + type(x).__name__


def enci(x):
    """Like enc, but integral floats become ints (data we chose to be integral)."""
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isfinite(x) and x == int(x) and abs(x) < 2 ** 31 - 1:
            return int(x)
        return enc(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return enci(x.item())
        return [enci(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [enci(v) for v in x]
    if isinstance(x, dict):
        return {str(k): enci(v) for k, v in x.items()}
    if hasattr(x, "to_numpy"):
        return enci(x.to_numpy())
    return enc(x)


def fpr(x):
    return hashlib.md5(json.dumps(enc(x)).encode()).hexdigest()[:10]


class ScenarioTimeout(Exception):
    pass


class Rec:
    def __init__(self, spec, name):
        self.spec, self.name = spec, name
        self.cfg, self.evs, self.held = {}, [], []

    def hold(self, *objs):
        """values handed out (or taken in) now that later operations must not alter"""
        for o in objs:
            self.held.append((o, fpr(o)))

    def ev(self, op, **kw):
        d = {"op": op}
        d.update({k: enc(v) for k, v in kw.items()})
        self.evs.append(d)

    def evi(self, op, **kw):
        d = {"op": op}
        d.update({k: enci(v) for k, v in kw.items()})
        self.evs.append(d)

    def trace(self):
        return {"name": self.name, "cfg": self.cfg, "ev": self.evs}


class Scenario:
    """One run of the implementation that yields one trace for `spec`."""

    def __init__(self, spec, name, fn, /, timeout=240, kf=None, **kw):
        self.spec, self.name, self.fn, self.kw = spec, name, fn, kw
        self.timeout = timeout
        self.kf = kf          # id of a known finding this scenario probes


def attempt(fn, *a, **k):
    """Call fn; return (value, "") or (None, "raise:<Type>")."""
    try:
        return fn(*a, **k), ""
    except ScenarioTimeout:
        raise
    except Exception as e:     # noqa
        return None, "raise:" + type(e).__name__


def run_scenario(sc):
    rec = Rec(sc.spec, sc.name)

    def onalarm(signum, frame):
        raise ScenarioTimeout("scenario exceeded %ds" % sc.timeout)

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(sc.timeout)
    t0 = time.time()
    np.random.seed(12345)
    try:
        sc.fn(rec, **sc.kw)
        if rec.held:
            rec.evs.append({"op": "HELD", "was": [h for _, h in rec.held], "now": [fpr(o) for o, _ in rec.held]})
    except BaseException as e:       # the implementation (or its import) failed
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        loc = ""
        for f in tb:
            if "skmultiflow" in f.filename:
                loc = "%s:%s" % (f.filename.split("skmultiflow/")[-1], f.name)
        rec.evs.append({"op": "EXC", "what": "%s %s %s" % (
            type(e).__name__, str(e)[:160].replace("\n", " "), loc)})
        sys.stderr.write("[%s] %s\n" % (sc.name, "".join(traceback.format_exception(e))[-1500:]))
    finally:
        signal.alarm(0)
    t = rec.trace()
    t["spec"] = sc.spec
    t["kf"] = sc.kf or ""
    t["secs"] = round(time.time() - t0, 3)
    return t
