"""C28: stream transforms and pipelines against spec/Transforms.tla."""
import warnings

import numpy as np

from rec import Scenario, attempt


def val(v):
    v = float(v)
    return "nan" if np.isnan(v) else repr(v)


def rows(X):
    return [[val(v) for v in np.ravel(row)] for row in X]


class Count:
    """a transform of its own: adds the number of rows learnt; which methods it has varies"""
    def __init__(self):
        self.n = 0

    def transform(self, X):
        return np.asarray(X, dtype=float) + self.n

    def get_info(self):
        return "Count"


def count(t):
    def partial_fit(self, X, y=None):
        self.n += len(X)
        return self

    def partial_fit_c(self, X, y=None, classes=None):
        return partial_fit(self, X, y)

    def partial_fit_transform(self, X, y=None):
        return partial_fit(self, X, y).transform(X)

    def partial_fit_transform_c(self, X, y=None, classes=None):
        return partial_fit_transform(self, X, y)

    def fit(self, X, y=None):
        self.n = len(X)
        return self

    def fit_transform(self, X, y=None):
        return fit(self, X, y).transform(X)
    ns = {}
    c = t["classes"]
    if t["has"] in ("pf", "all"):
        ns["partial_fit"] = partial_fit_c if c else partial_fit
    if t["has"] in ("pft", "all"):
        ns["partial_fit_transform"] = partial_fit_transform_c if c else partial_fit_transform
    if t["fits"]:
        ns["fit"] = fit
        if t["has"] != "pf":
            ns["fit_transform"] = fit_transform
    return type("Scripted", (Count,), ns)()


def make(t):
    from skmultiflow import transform as T
    k = t["kind"]
    if k == "std":
        return T.WindowedStandardScaler(window_size=t["size"])
    if k == "minmax":
        return T.WindowedMinmaxScaler(window_size=t["size"])
    if k == "clean":
        miss = [float(v) for v in t["miss"]]
        return T.MissingValuesCleaner(missing_value=miss if len(miss) != 1 or t["listed"] else miss[0], strategy=t["how"], window_size=t["size"], new_value=float(t["new"]))
    if k == "onehot":
        return T.OneHotToCategorical(categorical_list=[list(g) for g in t["groups"]])
    if k == "count":
        return count(t)
    return None


def data(r, t, n, c):
    """rows of c attributes that suit the transform"""
    if t["kind"] == "onehot":
        X = r.randint(0, 4, (n, c)).astype(float)
        for g in t["groups"]:
            X[:, g] = 0
            for k in range(n):
                u = r.rand()
                if u < 0.85:
                    X[k, g[r.randint(len(g))]] = 1
                elif u < 0.93:
                    X[k, g] = r.randint(0, 2, len(g))
        return X
    if t["kind"] == "clean":
        X = r.choice([0, 1, 1, 2, 3, 5.5, -4], (n, c)).astype(float)
        marks = [float(v) for v in t["miss"]] + [np.nan]
        M = r.rand(n, c) < t["holes"]
        X[M] = r.choice(marks, int(M.sum()))
        return X
    X = r.choice([0.1, 0.3, 2.5, -1, 7], (n, c)) * 1.0
    if t["still"]:
        X[:, r.randint(c)] = t["still"]
    return X


def alone(rec, t, seed, n, c, strict=False):
    r = np.random.RandomState(seed)
    rec.cfg = {"ts": [t], "strict": strict}
    m = make(t)
    for k in range(n):
        X = data(r, t, int(r.choice([1, 1, 2, 4, 7])), c)
        form = str(r.choice(["array", "array", "list", "fortran", "int"])) if t["kind"] != "onehot" else "array"
        if form == "fortran":
            X = np.asfortranarray(X)
        if form == "int":
            X = np.round(np.where(np.isnan(X), 1, X)).astype(int)
        if form == "list":
            X = X.tolist()
        ev = rows(X)
        rec.hold(X)
        op = str(r.choice(["tr", "pft", "learn"], p=[0.45, 0.35, 0.2]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op == "learn":
                out, why = attempt(m.partial_fit, X)
                rec.ev("learn", x=ev, me=out is m, raised=why)
            else:
                out, why = attempt(m.transform if op == "tr" else m.partial_fit_transform, X)
                rec.ev(op, x=ev, out=[] if why else rows(out), raised=why)
                if not why:
                    rec.hold(out)
        if why:
            return


class Final:
    _estimator_type = "classifier"

    def __init__(self):
        self.log = []

    def predict(self, X):
        out = np.array([int(abs(np.nansum(np.asarray(x, dtype=float))) * 3) % 5 for x in X])
        self.log.append(("ask", rows(X), [int(v) for v in out]))
        return out

    def _learn(self, X, y, classes):
        self.log.append(("teach", rows(X), [int(v) for v in y], [] if classes is None else [int(c) for c in classes]))
        return self

    def get_info(self):
        return "Final"


def final(p):
    if p["classes"]:
        ns = {"partial_fit": lambda self, X, y, classes=None: self._learn(X, y, classes)}
    else:
        ns = {"partial_fit": lambda self, X, y: self._learn(X, y, None)}
    ns["fit"] = lambda self, X, y: self._learn(X, y, None)
    return type("Learner", (Final,), ns)()


def pipe(rec, p, ts, seed, n, c):
    from skmultiflow.core import Pipeline
    r = np.random.RandomState(seed)
    rec.cfg = {"ts": ts, "strict": False}
    last = final(p)
    steps = [("s%d" % k, make(t)) for k, t in enumerate(ts)]
    m, why = attempt(Pipeline, steps + [("end", last)])
    if why:
        rec.ev("making", raised=why)
        return
    rec.ev("making", raised=attempt(m.get_info)[1])
    t0 = ts[0] if ts and ts[0]["kind"] in ("onehot", "clean") else {"kind": "std", "still": 0}
    for k in range(n):
        X = data(r, t0, int(r.choice([1, 1, 2, 5])), c)
        y = r.randint(0, 3, len(X))
        if r.rand() < 0.3:
            X = np.asfortranarray(X)
        ev = rows(X)
        rec.hold(X)
        del last.log[:]
        op = str(r.choice(["fit", "partial_fit", "predict", "partial_fit_predict"], p=[0.1, 0.45, 0.3, 0.15]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op in ("fit", "partial_fit"):
                kw = {"classes": [0, 1, 2]} if op == "partial_fit" and r.rand() < 0.5 else {}
                out, why = attempt(getattr(m, op), X, y, **kw)
                got = [e for e in last.log if e[0] == "teach"]
                assert why or (len(got) == 1 and len(last.log) == 1), "the final learner is not taught once"
                assert why or out is m, op + " does not return the pipeline"
                rec.ev("taught", how="fit" if op == "fit" else "learn", x=ev, got=got[0][1] if got else [], y=[int(v) for v in y], goty=got[0][2] if got else [],
                       classes=kw.get("classes", []) if p["classes"] else [], gotc=got[0][3] if got else [], raised=why)
            elif op == "predict":
                out, why = attempt(m.predict, X)
                got = [e for e in last.log if e[0] == "ask"]
                assert why or (len(got) == 1 and len(last.log) == 1), "the final learner is not asked once"
                rec.ev("asked", how="ask", x=ev, got=got[0][1] if got else [], out=[] if why else [int(v) for v in out], back=got[0][2] if got else [], raised=why)
            else:
                out, why = attempt(m.partial_fit_predict, X, y)
                got, ask = [e for e in last.log if e[0] == "teach"], [e for e in last.log if e[0] == "ask"]
                assert why or (len(got) == 1 and len(ask) == 1 and got[0][1] == ask[0][1]), "partial_fit_predict does not teach and ask the final learner the same rows"
                rec.ev("taught", how="learn", x=ev, got=got[0][1] if got else [], y=[int(v) for v in y], goty=got[0][2] if got else [], classes=[], gotc=got[0][3] if got else [],
                       raised=why)
                assert why or [int(v) for v in out] == ask[0][2], "the answer is not the final learner's"
        if why:
            return


def transform(r, kind, c, **over):
    t = {"kind": kind, "size": int(r.choice([1, 2, 3, 5, 20])), "miss": [repr(float(v)) for v in r.choice([-47.0, 99.0, 5.5], r.randint(0, 3), replace=False)] or ["nan"],
         "listed": bool(r.rand() < 0.5), "how": str(r.choice(["zero", "mean", "median", "mode", "custom"])), "new": repr(float(r.choice([1, -3, 2.5]))), "holes": float(r.choice([0.1, 0.4, 0.8])),
         "groups": [], "still": float(r.choice([0, 0, 0.1, 0.3, 7])), "has": str(r.choice(["pf", "pft", "all"])), "classes": bool(r.rand() < 0.5), "fits": bool(r.rand() < 0.5)}
    if kind == "onehot":
        cut = sorted(int(v) for v in r.choice(np.arange(1, c), min(c - 1, int(r.randint(0, 5))), replace=False))
        parts = [list(range(a, b)) for a, b in zip([0] + cut, cut + [c])]
        t["groups"] = [g for g in parts if len(g) > 1 and r.rand() < 0.8]
        if r.rand() < 0.3:
            r.shuffle(t["groups"])
    t.update(over)
    return t


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 61 + 28)
    for kind, k0 in (("std", 20), ("minmax", 20), ("clean", 40), ("onehot", 20)):
        for k in range(ctx.n(k0, k0 * 20)):
            c = int(r.randint(2, 9)) if kind == "onehot" else int(r.randint(1, 5))
            yield Scenario("TransformsTrace", "%s/%d" % (kind, k), alone, t=transform(r, kind, c), seed=ctx.seed * 1000 + k, n=int(r.choice([5, 15, 30])), c=c)
    for k in range(ctx.n(60, 1200)):
        c = int(r.randint(2, 7))
        kinds = []
        if r.rand() < 0.4:
            kinds.append(str(r.choice(["onehot", "clean"])))
        kinds += [str(v) for v in r.choice(["std", "minmax", "count", "count", "none"], r.randint(0, 3))]
        yield Scenario("TransformsTrace", "pipe/%d" % k, pipe, p={"classes": bool(r.rand() < 0.6)}, ts=[transform(r, kd, c) for kd in kinds], seed=ctx.seed * 1000 + k,
                       n=int(r.choice([5, 15])), c=c)
    yield Scenario("TransformsTrace", "kf-range/minmax", alone, kf="F17", t=transform(r, "minmax", 2, size=5, still=0), seed=3, n=20, c=2, strict=True)
