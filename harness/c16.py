"""C16: k-nearest-neighbour classifiers and regressor."""
import numpy as np

from rec import Scenario, enc, enci


def play(rec, kind, k, W, metric, agg, leaf, ops, seed, grid, nf, nc, announce, shift):
    from skmultiflow.lazy import KNNClassifier, KNNADWINClassifier, KNNRegressor
    r = np.random.RandomState(seed)
    if kind == "reg":
        m = KNNRegressor(n_neighbors=k, max_window_size=W, leaf_size=leaf, metric=metric, aggregation_method=agg)
    else:
        m = {"cls": KNNClassifier, "adwin": KNNADWINClassifier}[kind](n_neighbors=k, max_window_size=W, leaf_size=leaf, metric=metric)
    rec.cfg = {"kind": kind, "k": k, "W": W, "metric": metric, "agg": agg, "maxc": nc - 1}
    count = [0]

    def data(n):
        X = r.randint(0, 4, (n, nf)).astype(float) if grid else r.randn(n, nf).round(6)
        if kind == "reg":
            return X, (r.randint(-20, 20, n) / 2.0)
        y = (np.sign(X[:, 0] - (1.5 if grid else 0)) > 0).astype(int) + (r.rand(n) < 0.15) * r.randint(0, nc, n)
        if shift and count[0] >= shift:
            y = r.randint(0, nc, n)
        count[0] += n
        return X, (y % nc).astype(int)
    for o in ops:
        if o["op"] == "fit":
            X, y = data(o["n"])
            rec.hold(X, y)
            cls = []
            if kind == "reg":
                m.partial_fit(X, y)
            elif announce and not rec.evs:
                cls = list(range(nc))
                m.partial_fit(X, y, classes=cls)
            else:
                m.partial_fit(X, y)
            w = getattr(m, "data_window", None)
            rec.ev("fit", X=enci(X), y=enci(y), cls=cls, size=int(getattr(w, "size", -1)),
                   width=int(getattr(getattr(m, "adwin", None), "width", -1)))
        elif o["op"] == "query":
            X, _ = data(int(r.randint(1, 4)))
            rec.hold(X)
            p = m.predict(X)
            pp = [] if kind == "reg" else m.predict_proba(X)
            rec.ev("query", X=enci(X), pred=enci(p), proba=pp)
        else:
            m.reset()
            rec.ev("reset")


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 5 + 16)
    for k, ops in enumerate(ctx.beh["ops"]):
        if not ctx.thorough and k % 2:
            continue
        kind = ["cls", "reg"][(k // 2) % 2]
        yield Scenario("KnnTrace", "%s-gen/%d" % (kind, k), play, kind=kind, k=2, W=3, metric=["euclidean", "manhattan", "chebyshev"][k % 3],
                       agg=["mean", "median"][(k // 4) % 2], leaf=[30, 1, 2][k % 3], ops=list(ops) + [{"op": "query", "n": 0}], seed=ctx.seed * 1000 + k, grid=k % 5 < 3,
                       nf=1 + k % 3, nc=2 + k % 2, announce=k % 4 == 0, shift=0)
    for k in range(ctx.n(36, 360)):
        kind = ["cls", "reg", "adwin"][k % 3]
        ops = []
        for _ in range(int(r.choice([40, 80]))):
            u = r.rand()
            ops.append({"op": "fit" if u < 0.65 else "query" if u < 0.985 else "reset", "n": int(r.choice([1, 1, 2, 3, 7]))})
        nc = int(r.choice([2, 3, 5]))
        yield Scenario("KnnTrace", "%s-rand/%d" % (kind, k), play, kind=kind, k=int(r.choice([1, 2, 3, 5, 8])), W=int(r.choice([5 + 4, 20, 60, 1000])),
                       metric=str(r.choice(["euclidean", "manhattan", "chebyshev", "minkowski"])), agg=str(r.choice(["mean", "median"])),
                       leaf=int(r.choice([30, 2, 10])), ops=ops, seed=ctx.seed * 77 + k, grid=bool(kind != "adwin" and r.rand() < 0.4), nf=int(r.choice([1, 2, 4])),
                       nc=nc, announce=bool(r.rand() < .5), shift=0)
    for k in range(ctx.n(6, 40)):       # ADWIN shrinks the window
        ops = []
        for j in range(330):
            ops.append({"op": "fit", "n": 1 + (j % 3 == 0) * (k % 3) + 20 * (j % 11 == 5)})
            if j % 5 == 0:
                ops.append({"op": "query", "n": 0})
        yield Scenario("KnnTrace", "adwin-drift/%d" % k, play, kind="adwin", k=int(r.choice([9, 7, 12])), W=int(r.choice([1000, 220, 1000])), metric="euclidean",
                       agg="mean", leaf=30, ops=ops, seed=ctx.seed * 99 + k, grid=False, nf=2, nc=5, announce=True, shift=int(r.choice([130, 190])))
