"""Shared by C18 and C19: instances of a learner live through schedules of training, asking, resetting, cloning,
copying and pickling; the recorded answers are validated by spec/LifecycleTrace.tla."""
import copy
import pickle

import numpy as np

import estimators as E
from rec import attempt, enc, fpr

# learners that learn row by row: how the rows are cut into calls must not matter
BATCHY = {"Perceptron", "OzaBaggingADWIN", "MultiOutput-perc", "MultiOutput-reg", "RC", "CC", "CC-random", "PCC", "MCC",
          "RSLVQ", "RSLVQ-adadelta"}
# clone gives a different learner (known findings F06-F08), or inference draws random numbers (MCC)
NOCLONE = {"OnlineBoosting", "OnlineBoosting-knn", "OnlineSMOTE", "VFDR-ordered-drift"}
SAMPLED = {"MCC"}
REWRITES = {"ARF": "max_features", "ARF-all": "max_features", "ARFR": "max_features",
            "ARF-kappa": "max_features", "ARFR-mean": "max_features"}      # known finding F09
POOL = 330
OTHER = 10000


def pool(kind, seed, scale=1.0):
    """rows 1..POOL: three stretches, the second and third under another concept"""
    a, b, c = E.batch(kind, seed, 90, 0), E.batch(kind, seed + 1, 120, 1), E.batch(kind, seed + 2, 120, 2)
    return np.vstack([a[0], b[0], c[0]]), np.concatenate([a[1], b[1], c[1]])


def sharp_pool(kind, seed):
    """five stretches of 400 rows, each with its own clear concept"""
    b = [E.sharp(kind, seed + k, 400, k) for k in range(5)]
    return np.vstack([x for x, _ in b]), np.concatenate([y for _, y in b])


def params(m, skip):
    p = m.get_params(deep=False)
    return fpr(sorted((k, repr(v)[:300]) for k, v in p.items() if k != skip))


class Life:
    def __init__(self, rec, name, seed, rows=None, slots=2, once=False, skip=None, sharp=False):
        self.kind, self.make = E.registry()[name]
        self.rec, self.name = rec, name
        self.X, self.y = (sharp_pool if sharp else pool)(self.kind, seed)
        self.Q = E.batch(self.kind, seed + 9, 12)[0]
        self.r = np.random.RandomState(seed + 77)
        self.slot = [None] + [self.make() for _ in range(slots)]
        self.given = [(b, pickle.dumps(b)) for b in (getattr(m, "base_estimator", None) for m in self.slot) if b is not None]
        self.taught = [False] * (slots + 1)
        self.alt = [0] * (slots + 1)
        self.skip = REWRITES.get(name) if skip is None else skip
        self.once = once
        rec.cfg = {"learner": name, "n": slots, "rows": name not in BATCHY if rows is None else rows, "tol": "1e-09",
                   "par": params(self.slot[1], self.skip)}

    def fit(self, s, a, b, form="", alt=0):
        """one training call with rows a..b; alt 1: under other labels, 2: with an attribute less (rows OTHER * alt + a ..)"""
        X, y = self.X[a - 1:b].copy(), self.y[a - 1:b].copy()
        kw = {}
        self.alt[s] = alt
        if alt == 1:
            y = y + 1
        elif alt == 2:
            X = X[:, :3]
        if form == "F":
            X = np.asfortranarray(X)
        elif form == "view":
            Z = np.full((2 * len(X), 2 * X.shape[1]), 7.5)
            Z[::2, 1::2] = X
            X = Z[::2, 1::2]
        elif form == "ones":
            kw["sample_weight"] = np.ones(len(X))
        c = E.classes(self.kind)
        if c is not None and not (self.once and self.taught[s]):
            c = list(range(len(c) + 1)) if alt == 1 else c
            kw["classes"] = np.asarray(c) if form == "ca" else list(c)
        k = fpr((X, y, kw.get("sample_weight")))
        _, why = attempt(self.slot[s].partial_fit, X, y, **kw)
        self.taught[s] = True
        self.rec.ev("fit", s=s, a=OTHER * alt + a, b=OTHER * alt + b, raised=why, same=fpr((X, y, kw.get("sample_weight"))) == k)

    def fit_each(self, s, a, b):
        """rows a..b in calls of one row each (one event, for learners that learn row by row)"""
        c = E.classes(self.kind)
        why, same = "", True
        for j in range(a - 1, b):
            X, y = self.X[j:j + 1].copy(), self.y[j:j + 1].copy()
            kw = {} if c is None or (self.once and self.taught[s]) else {"classes": list(c)}
            k = fpr((X, y))
            _, w = attempt(self.slot[s].partial_fit, X, y, **kw)
            self.taught[s] = True
            why, same = why or w, same and fpr((X, y)) == k
        self.rec.ev("fit", s=s, a=a, b=b, raised=why, same=same)

    def ask(self, s, rows, single=False):
        m = self.slot[s]
        Q = self.Q[:, :3] if self.alt[s] == 2 else self.Q
        if single:
            got = [E.ask(m, Q[r - 1:r].copy()) for r in rows]
            p = [np.ravel(g[0][0]) for g in got]
            q = [np.ravel(g[1][0]) if g[1] is not None else [] for g in got]
        else:
            X = Q[[r - 1 for r in rows]]
            k = X.copy()
            g = E.ask(m, X)
            assert np.array_equal(X, k), "asking altered its input"
            p = [np.ravel(v) for v in g[0]]
            q = [np.ravel(v) for v in g[1]] if g[1] is not None else [[] for _ in rows]
        self.rec.ev("ask", s=s, rows=[OTHER * self.alt[s] + v for v in rows], p=p, q=q, via="one row at a time" if single else "in a batch")

    def survey(self, s):
        """one question of many rows, answered as a whole (compares far more of the model's state)"""
        if not hasattr(self, "W"):
            self.W = E.sharp(self.kind, 4711, 40, 0)[0]
        g = E.ask(self.slot[s], self.W.copy())
        flat = lambda v: np.concatenate([np.ravel(x).astype(float) for x in v]) if v is not None and len(v) else []
        self.rec.ev("ask", s=s, rows=[9000], p=[flat(g[0])], q=[flat(g[1])], via="in a batch")

    def new(self, s):
        self.slot[s] = self.make()
        self.taught[s] = False
        self.rec.ev("new", s=s)

    def reset(self, s):
        self.slot[s].reset()
        self.taught[s] = False
        self.rec.ev("reset", s=s)

    def clone(self, s, t):
        from skmultiflow.core import clone
        self.slot[t] = clone(self.slot[s])
        self.taught[t] = False
        self.rec.ev("clone", s=s, t=t)

    def copy(self, s, t, how="copy"):
        self.slot[t] = copy.deepcopy(self.slot[s]) if how == "copy" else pickle.loads(pickle.dumps(self.slot[s]))
        self.taught[t] = self.taught[s]
        self.alt[t] = self.alt[s]
        self.rec.ev(how, s=s, t=t)

    def noise(self):
        np.random.seed(self.r.randint(2 ** 31))
        self.rec.ev("noise")

    def params(self, s):
        self.rec.ev("params", par=params(self.slot[s], self.skip), base=all(pickle.dumps(b) == k for b, k in self.given))
