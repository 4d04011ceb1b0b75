"""C29: HoeffdingTreeRegressor, iSOUPTreeRegressor and StackedSingleTargetHoeffdingTreeRegressor against spec/RegTree.tla."""
import re

import numpy as np

from classdata import coded
from rec import Scenario, attempt


class Source:
    """rows with numeric and nominal attributes and targets in eighths (so that sums are exact)"""
    def __init__(self, seed, kinds, noise, grain, still, k):
        self.r = np.random.RandomState(seed)
        self.kinds, self.noise, self.grain, self.still, self.k = kinds, noise, grain, still, k
        self.mode = 0

    def rows(self, n, novel=False):
        X = np.zeros((n, len(self.kinds)))
        for a, kind in enumerate(self.kinds):
            if kind:
                X[:, a] = self.r.randint(0, kind, n)
                if novel:
                    X[self.r.rand(n) < 0.05, a] = kind + self.r.randint(0, 3)
            elif a == self.still:
                X[:, a] = 0.75
            else:
                X[:, a] = self.r.randint(0, self.grain, n) / 8.0
        Y = np.zeros((n, self.k))
        for j in range(self.k):
            z = np.zeros(n)
            for a, kind in enumerate(self.kinds):
                u = X[:, a] / (kind or self.grain / 8.0)
                z += np.where(u > 0.5, 6, 0) * [1.0, 0.5, 0.25, 0][(a + self.mode + j) % 4] + u * [0, 2, 4, 1][(a + self.mode + 2 * j) % 4]
            Y[:, j] = 2.5 if j == 2 else np.round(8 * (z + self.noise * self.r.randn(n))) / 8
        return X, Y

    def weights(self, n, style):
        if style == "ones":
            return None
        if style == "ints":
            return self.r.randint(0, 4, n).astype(float)
        if style == "halves":
            return np.array([0.5, 0.5, 0.5, 1.5])[self.r.randint(0, 4, n)]
        return np.array([0.0, 0.5, 1.0, 1.0, 2.5, 3.0])[self.r.randint(0, 6, n)]


def described(text, kinds):
    """the paths of a description with the statistics at their ends"""
    out, stack = [], []
    for line in text.splitlines():
        depth = (len(line) - len(line.lstrip())) // 2
        stack = stack[:depth]
        g = re.match(r"\s*if Attribute (\d+) (\S+) (\S+):$", line)
        if g:
            a, op, v = int(g.group(1)), g.group(2), float(g.group(3))
            stack.append([a + 1, op, int(v) if kinds[a] else repr(v)])
            continue
        g = re.match(r"\s*Leaf = Statistics \{(.*)\}$", line)
        assert g, "a line of the description cannot be read: " + line
        n = dict(t.split(": ") for t in re.sub(r"\[[^]]*\]", lambda h: h.group().replace(", ", "; "), g.group(1)).split(", ") if t)
        out.append({"path": list(stack), "n": [n["0"]] + [n[k].strip("[]").split("; ") for k in ("1", "2")] if n else []})
    return out


def run(rec, kinds, p, style, seed, n, noise, grain, still=-1):
    from skmultiflow.trees import HoeffdingTreeRegressor, StackedSingleTargetHoeffdingTreeRegressor, iSOUPTreeRegressor
    cls = {"single": HoeffdingTreeRegressor, "isoup": iSOUPTreeRegressor, "sst": StackedSingleTargetHoeffdingTreeRegressor}[p["kind"]]
    r = np.random.RandomState(seed)
    nom = [a for a, kd in enumerate(kinds) if kd]
    m = cls(grace_period=float(p["grace"]), split_confidence=float(p["conf"]), tie_threshold=float(p["tie"]), binary_split=p["binary"],
                               remove_poor_atts=p["poor"], no_preprune=p["noprune"], leaf_prediction=p["leaf"], nominal_attributes=nom or None,
                               learning_ratio_perceptron=float(p["lr"]), learning_ratio_decay=float(p["decay"]), learning_ratio_const=p["const"], random_state=seed,
                               memory_estimate_period=p["period"])
    rows = lambda A: [[repr(float(v)) for v in row] for row in A]
    q = np.random.RandomState(seed)
    rec.cfg = {"p": dict(p, nom=[a + 1 for a in nom], w0=rows(q.uniform(-1, 1, (p["k"], len(kinds) + 1))), s0=rows(q.uniform(-1, 1, (p["k"], p["k"] + 1))))}
    src = Source(seed, kinds, noise, grain, still, p["k"])
    trained = False

    def ask():
        X, _ = src.rows(int(r.randint(1, 5)), novel=True)
        rec.hold(X)
        q = m.model_measurements
        pred, why = attempt(m.predict, X)
        rec.evs.append({"op": "ask", "X": coded(X, kinds), "pred": [] if why else rows(np.reshape(pred, (len(X), -1))), "raised": why, "nodes": int(q["Tree size (nodes)"]),
                        "leaves": int(q["Tree size (leaves)"]), "depth": int(q["Tree depth"]), "active": int(q["Active learning nodes"]),
                        "descr": described(m.get_model_description(), kinds) if trained else []})
    ask()
    at = 0
    while at < n:
        b = int(r.choice([1, 2, 5, 12, 30]))
        X, y = src.rows(b, novel=at > n // 2)
        w = src.weights(b, style)
        rec.hold(X, y)
        _, why = attempt(m.partial_fit, X, y[:, 0] if p["kind"] == "single" else y, **({} if w is None else {"sample_weight": w}))
        rec.ev("fit", X=coded(X, kinds), y=rows(y), w=np.ones(b) if w is None else w, raised=why)
        if why:
            return
        trained = trained or w is None or bool(np.any(w != 0))
        at += b
        ask()
        if r.rand() < 0.05:
            src.mode += 1
        if r.rand() < 0.01:
            m.reset()
            rec.ev("reset")
            trained = False
            ask()


def params(r, kind, **over):
    leaves = {"single": ["mean", "perceptron"], "isoup": ["mean", "perceptron", "adaptive"], "sst": ["perceptron", "adaptive"]}[kind]
    p = {"grace": int(r.choice([5, 10, 20, 40])), "conf": ["0.5", "0.1", "0.01", "1e-07"][r.randint(4)], "tie": ["0.05", "0.3", "0.5", "0.0"][r.randint(4)],
         "binary": bool(r.rand() < 0.4), "poor": bool(r.rand() < 0.3), "noprune": bool(r.rand() < 0.3), "leaf": leaves[r.randint(len(leaves))],
         "kind": kind, "k": 1 if kind == "single" else int(r.randint(1, 4)), "lr": ["0.02", "0.2", "1.0"][r.randint(3)], "decay": ["0.001", "0.1"][r.randint(2)], "const": bool(r.rand() < 0.6), "period": int(r.choice([1000000, 37]))}
    p.update(over)
    return p


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 67 + 29)
    for j in range(ctx.n(120, 1200)):
        kinds = [[0, 0], [0, 3, 0], [2, 4, 3], [0, 0, 0, 5], [0], [3, 2], [4]][j % 7]
        kind = ["single", "isoup", "single", "sst"][j % 4]
        yield Scenario("RegTreeTrace", "%s-%d" % ({"single": "htr"}.get(kind, kind), j), run, kinds=kinds, p=params(r, kind), style=["ones", "ints", "any", "halves"][r.randint(4)],
                       seed=ctx.seed * 1000 + j, n=ctx.n(250, 700), noise=float(r.choice([0.0, 0.5, 2.0])), grain=int(r.choice([2, 5, 20, 1000])),
                       still=int(r.choice([-1, -1, -1, 0])) if len(kinds) > 1 else -1)
