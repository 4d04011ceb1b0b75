"""C22: NaiveBayes against spec/NaiveBayesTrace.tla."""
import numpy as np

from classdata import Source, coded
from rec import Scenario, attempt


def run(rec, kinds, k, gap, scale, style, seed, n, classes, coarse):
    from skmultiflow.bayes import NaiveBayes
    r = np.random.RandomState(seed)
    nom = [a for a, kd in enumerate(kinds) if kd]
    m = NaiveBayes(nominal_attributes=nom or None)
    rec.cfg = {"nom": [a + 1 for a in nom]}
    src = Source(seed, kinds, k, noise=0.15, scale=scale, gap=gap)

    seen = []

    def ask():
        X, _ = src.rows(int(r.randint(1, 5)), novel=True)
        if coarse:
            grid(X)
        if seen and r.rand() < 0.7:     # values met before, the single values of rare classes above all
            X[0] = seen[r.randint(len(seen))] if r.rand() < 0.5 else seen[-1]
        rec.hold(X)
        rec.ev("ask", X=coded(X, kinds), proba=np.asarray(m.predict_proba(X), dtype=float), pred=[int(v) for v in m.predict(X)])
    def grid(X):
        for a, kd in enumerate(kinds):
            if not kd:
                X[:, a] = np.round(X[:, a] / scale * 3) / 4
    ask()
    at = 0
    while at < n:
        b = int(r.choice([1, 1, 2, 5, 12]))
        X, y = src.rows(b)
        if coarse:
            grid(X)
        seen += [x.copy() for x in X]
        w = src.weights(b, style)
        rec.hold(X, y)
        kw = {} if w is None else {"sample_weight": w}
        if classes:
            kw["classes"] = [c * gap for c in range(k)]
        _, why = attempt(m.partial_fit, X, y, **kw)
        rec.ev("fit", X=coded(X, kinds), y=y, w=np.ones(b) if w is None else w, raised=why)
        at += b
        ask()
        if r.rand() < 0.02:
            src.mode += 1
        if r.rand() < 0.01:
            m.reset()
            del seen[:]
            rec.ev("reset")
            ask()


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 7 + 22)
    for j in range(ctx.n(60, 600)):
        kinds = [[0, 0], [0, 3, 0], [2, 4], [0, 0, 0, 5], [0], [3]][j % 6]
        yield Scenario("NaiveBayesTrace", "nb-%d" % j, run, kinds=kinds, k=int(r.randint(2, 5)), gap=int(r.choice([1, 1, 3])), scale=float(r.choice([1.0, 100.0, 0.01])),
                       style=["ones", "ints", "any"][r.randint(3)], seed=ctx.seed * 1000 + j, n=ctx.n(100, 300), classes=j % 2 == 0, coarse=j % 3 == 1)
