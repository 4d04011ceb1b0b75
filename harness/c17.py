"""C17: SAMKNNClassifier memories."""
import numpy as np

from rec import Scenario, enc, enci


def play(rec, k, weighting, mx, ltm, frac, mn, opt, seed, n, nf, labels, seg, batch):
    from skmultiflow.lazy import SAMKNNClassifier
    m = SAMKNNClassifier(n_neighbors=k, weighting=weighting, max_window_size=mx, ltm_size=frac, min_stm_size=mn,
                         stm_size_option=opt, use_ltm=ltm)
    rec.cfg = {"k": k, "weighted": weighting == "distance", "max": mx, "maxltm": repr(frac * mx), "min": mn,
               "opt": "None" if opt is None else opt, "ltm": ltm}
    r = np.random.RandomState(seed)
    mode, t = 0, 0

    def sample(q):
        X = np.round(r.rand(q, nf), 6)
        ys = []
        for x in X:
            z = x[0] + (x[1] if nf > 1 else 0) * (0.3 if mode % 2 else -0.3)
            c = int(z * len(labels) * 0.999 + 5 * len(labels)) % len(labels)
            if mode % 3 == 1:
                c = (c + 1) % len(labels)
            if r.rand() < 0.05:
                c = int(r.randint(len(labels)))
            ys.append(labels[c])
        return X, np.array(ys)
    rec.ev("query", X=np.array([[0.5] * nf]), pred=m.predict(np.array([[0.5] * nf])))
    while t < n:
        X, y = sample(batch)
        rec.hold(X, y)
        if batch > 1:
            m.partial_fit(X, y)
            for j in range(batch - 1):
                rec.ev("quiet", x=X[j], y=int(y[j]))
        else:
            m.partial_fit(X, y)
        rec.ev("fit", x=X[-1], y=int(y[-1]), SX=np.asarray(m.STMSamples), SY=enci(np.asarray(m.STMLabels)),
               LX=np.asarray(m.LTMSamples), LY=enci(np.asarray(m.LTMLabels)))
        t += batch
        if r.rand() < 1.0 / seg:
            mode += 1
        if t % 3 == 0:
            X, _ = sample(2)
            rec.hold(X)
            rec.ev("query", X=X, pred=enci(m.predict(X)))


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 5 + 17)
    for k in range(ctx.n(32, 320)):
        mx = int(r.choice([30, 45, 60]))
        mn = int(r.choice([6, 8, 12]))
        big = k % 8 == 7
        yield Scenario("SamKnnTrace", "mem/%d" % k, play, k=int(r.choice([1, 3, 5])), weighting=["distance", "uniform"][k % 2], mx=1000 if big else mx,
                       ltm=k % 4 != 3, frac=float(r.choice([0.4, 0.25, 0.55])), mn=mn, opt=["maxACCApprox", "maxACC", "maxACCApprox", None][(k // 2) % 4],
                       seed=ctx.seed * 100 + k, n=ctx.n(110, 220), nf=int(r.choice([1, 2, 3])),
                       labels=[[0, 1], [0, 1, 2], [3, 7], [150, 2, 200]][k % 4 if k % 5 else 3], seg=40, batch=3 if big else 1)
