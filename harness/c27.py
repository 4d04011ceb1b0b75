"""C27: multi-output learners and chains against spec/Chains.tla; scripted members whose answers are a checksum of their lessons."""
import warnings

import numpy as np

from rec import Scenario, attempt


def eighths(x):
    v = [8 * float(a) for a in x]
    assert all(a == int(a) for a in v), "a feature that was neither given nor predicted: %r" % (list(x),)
    return [int(a) for a in v]


def sig(x):
    return sum((i + 2) * a for i, a in enumerate(eighths(x)))


class Base:
    """checksum of lessons; answers are functions of it and of the question"""
    _natural, _reg = True, False

    def __init__(self):
        self.s = 1

    def _learn(self, X, y, classes=None, sample_weight=None):
        if classes is not None:
            self.s = (5 * self.s + int(sum(classes))) % 997
        for j in range(len(X)):
            w = 1 if sample_weight is None else int(sample_weight[j])
            t = 4 * float(y[j]) if self._reg else float(y[j])
            assert t == int(t)
            self.s = (3 * self.s + w * (7 * int(t) + 3) * (sig(X[j]) + 5)) % 997
        return self

    def predict(self, X):
        out = []
        for x in X:
            v = self.s + sig(x)
            if self._reg:
                out.append(((v % 41) - 20) / 4.0)
            else:
                out.append(int(v % 9 > 4) if self._natural else (v // 9) % 2)
        return np.array(out)

    def get_params(self, deep=True):
        return {}

    def get_info(self):
        return type(self).__name__

    def reset(self):
        self.s = 1
        return self


class Proba(Base):
    def predict_proba(self, X):
        q = np.array([((self.s + sig(x)) % 9) / 8.0 for x in X])
        return np.column_stack([1 - q, q])


class NoProba(Base):
    def predict_proba(self, X):
        raise NotImplementedError


def make_base(p):
    keeps = p["keeps"]        # its fit goes on like partial_fit, as that of many stream learners
    top = {"yes": Proba, "missing": Base, "refused": NoProba}[p["pb"]]
    ns = {"_natural": p["natural"], "_reg": p["reg"] or p["kind"] == "rc"}
    if p["typed"]:
        ns["_estimator_type"] = "regressor" if ns["_reg"] else "classifier"
    if p["takec"] and p["takew"]:
        def learn(self, X, y, classes=None, sample_weight=None):
            return self._learn(X, y, classes, sample_weight)
    elif p["takec"]:
        def learn(self, X, y, classes=None):
            return self._learn(X, y, classes)
    elif p["takew"]:
        def learn(self, X, y, sample_weight=None):
            return self._learn(X, y, None, sample_weight)
    else:
        def learn(self, X, y):
            return self._learn(X, y)

    def fit(self, X, y, **k):
        self.s = self.s if keeps else 1
        return learn(self, X, y, **k)
    if p["takec"] and p["takew"]:
        def fit(self, X, y, classes=None, sample_weight=None):
            self.s = self.s if keeps else 1
            return learn(self, X, y, classes, sample_weight)
    elif p["takec"]:
        def fit(self, X, y, classes=None):
            self.s = self.s if keeps else 1
            return learn(self, X, y, classes)
    elif p["takew"]:
        def fit(self, X, y, sample_weight=None):
            self.s = self.s if keeps else 1
            return learn(self, X, y, sample_weight)
    else:
        def fit(self, X, y):
            self.s = self.s if keeps else 1
            return learn(self, X, y)
    ns["fit"], ns["partial_fit"] = fit, learn
    return type("Scripted", (top,), ns)()


def make(p, base, seed):
    from skmultiflow import meta as M
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if p["kind"] == "mol":
            return M.MultiOutputLearner(base)
        order = None if p["order"] == "none" else p["order"]
        if p["kind"] == "mcc":
            return M.MonteCarloClassifierChain(base_estimator=base, M=p["M"], random_state=seed)
        C = {"cc": M.ClassifierChain, "pcc": M.ProbabilisticClassifierChain, "rc": M.RegressorChain}[p["kind"]]
        return C(base_estimator=base, order=order, random_state=seed)


def run(rec, p, seed, n):
    r = np.random.RandomState(seed)
    base = make_base(p)
    m = make(p, base, seed)
    rec.cfg = {"p": p}
    reg = p["reg"] or p["kind"] == "rc"
    L, D = p["L"], p["D"]
    if p["kind"] == "mol":
        rec.ev("kind", type=m._estimator_type)
    learnt = False

    def rows(b):
        return r.randint(0, 5, (b, D)).astype(float)

    def ask():
        X = rows(int(r.choice([1, 1, 3])))
        rec.hold(X)
        tries, kw = 0, {}
        if p["kind"] == "mcc":
            tries = p["M"]
            if r.rand() < 0.4:
                tries = int(r.choice([0, 1, 5]))
                kw = {"M": tries}
        pred, why = attempt(m.predict, X, **kw)
        prb = None
        if not reg and r.rand() < 0.7 and not why:
            prb, why2 = attempt(m.predict_proba, X)
            if p["pb"] != "yes":
                rec.ev("noproba", raised=why2)
                prb = None
            else:
                why = why2
        elif p["kind"] == "rc" and r.rand() < 0.1 and not why:
            _, why2 = attempt(m.predict_proba, X)
            rec.ev("noproba", raised=why2)
        pr, qs = [], []
        if not why:
            assert np.asarray(pred).shape == (len(X), L), "the answer has not one column per output"
            pr = [[whole(v * (4 if reg else 1)) for v in row] for row in np.asarray(pred, dtype=float)]
        if prb is not None:
            assert np.asarray(prb).shape == (len(X), L), "the answer has not one column per output"
            qs = [[whole(v * 8) for v in row] for row in np.asarray(prb, dtype=float)]
        rec.ev("ask", x=[eighths(x) for x in X], pred=pr, proba=qs, tries=tries, raised=why)
        return not why

    for k in range(n):
        b = int(r.choice([1, 1, 2, 5]))
        X = rows(b)
        Y = r.randint(-8, 9, (b, L)) / 4.0 if reg else r.randint(0, 2, (b, L))
        kw, cl, ws = {}, -1, []
        if p["kind"] == "mol" and not p["reg"] and r.rand() < 0.6:
            kw["classes"], cl = [0, 1], 1
        elif p["kind"] == "cc" and r.rand() < 0.2:
            kw["classes"] = [0, 1]
        if r.rand() < 0.5:
            w = r.randint(1, 4, b)
            kw["sample_weight"], ws = w, [int(v) for v in w]
        first = r.rand() < 0.15
        rec.hold(X, Y)
        out, why = attempt(m.fit if first else m.partial_fit, X, Y, **kw)
        rec.ev("fit" if first else "more", x=[eighths(x) for x in X], y=[[whole(v * (4 if reg else 1)) for v in row] for row in Y], ws=ws, classes=cl, raised=why,
               me=out is m)
        if why:
            return
        for _ in range(int(r.choice([0, 1, 2]))):
            if not ask():
                return
        if r.rand() < 0.08:
            m.reset()
            rec.ev("reset")
    rec.ev("base", touched=base.s != 1)


def whole(v):
    v = float(v)
    return int(v) if v == int(v) else repr(v)


def orders(rec, p, seed):
    """the order of each of many chains, from what the members see"""
    rec.cfg = {"p": p}
    seen = []

    class Tell(Proba):
        _estimator_type = "classifier"

        def fit(self, X, y):
            self.last = [int(v) for v in y]
            return self
        partial_fit = fit

        def __deepcopy__(self, memo):
            c = Tell()
            made.append(c)
            return c
    L = p["L"]
    Y = np.eye(L, dtype=int)
    for k in range(40 * (1 if L == 2 else 4)):
        made = []
        m = make(p, Tell(), seed * 1000 + k)
        del made[:]
        m.fit(np.zeros((L, 1)), Y)
        cols = [c.last for c in made if hasattr(c, "last")]
        seen.append([c.index(1) + 1 for c in cols])
    rec.ev("orders", seen=seen)


def params(r, kind, **over):
    p = {"kind": kind, "L": int(r.choice([1, 2, 3, 3, 4] if kind in ("mol", "cc", "rc") else [1, 2, 3, 3])), "D": int(r.choice([1, 2, 3])), "order": "none",
         "natural": bool(r.rand() < 0.5), "reg": False, "takew": bool(r.rand() < 0.5), "takec": bool(r.rand() < 0.5), "keeps": bool(r.rand() < 0.4), "pb": "yes", "typed": True, "M": int(r.choice([1, 3, 10, 400])),
         "noproba": ["raise:NotImplementedError", "raise:AttributeError"]}
    if kind in ("cc", "pcc", "rc"):
        p["order"] = str(r.choice(["none", "random"]))
    if kind == "mol":
        p["reg"] = bool(r.rand() < 0.3)
        p["typed"] = bool(r.rand() < 0.85)
        p["pb"] = str(r.choice(["yes", "yes", "missing", "refused"]))
        p["noproba"] = ["raise:AttributeError"]
    if kind == "cc" and r.rand() < 0.1:
        p["pb"] = "missing"
    p.update(over)
    return p


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 59 + 27)
    for kind, k0 in (("mol", 30), ("cc", 24), ("pcc", 20), ("mcc", 20), ("rc", 20)):
        for k in range(ctx.n(k0, k0 * 20)):
            yield Scenario("ChainsTrace", "%s/%d" % (kind, k), run, p=params(r, kind), seed=ctx.seed * 1000 + k, n=int(r.choice([4, 10, 25])))
    for kind in ("cc", "pcc", "rc"):
        for L in (2, 3):
            yield Scenario("ChainsTrace", "orders/%s/%d" % (kind, L), orders, p=params(r, kind, L=L, order="random"), seed=3)
