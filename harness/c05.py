"""C05: prequential evaluation order."""
import numpy as np

from rec import Scenario
from evalrig import order_trace, run


def play(rec, **kw):
    order_trace(rec, run("preq", **kw))


def configs(ctx, nq, nt, maxn=220):
    r = np.random.RandomState(ctx.seed * 7 + 5)
    for k in range(ctx.n(nq, nt)):
        n = int(r.choice([20, 21, 40, 63, 100, maxn]))
        kw = dict(kind=["class", "label", "reg", "mreg"][k % 4], n=n, seed=int(r.randint(1e6)), models=int(r.choice([1, 2, 3])),
                  batch=int(r.choice([1, 1, 2, 3, 7, 16, 50])), pre=int(r.choice([0, 0, 1, 5, 13])),
                  wait=int(r.choice([1, 5, 10, 20, 33])), limit=int(r.choice([20, 25, 50, 97, 1000])),
                  restart=bool(r.rand() < 0.7), inf=bool(r.rand() < 0.25), skip=int(r.choice([0, 0, 0, 3])),
                  twice=bool(r.rand() < 0.15))
        if kw["inf"]:
            kw["skip"] = 0
            kw["limit"] = min(kw["limit"], 200)
        if kw["skip"] and n - kw["skip"] < 20 + kw["pre"]:
            kw["skip"] = 0
        if kw["twice"]:
            kw.update(restart=True, skip=0)
        yield k, kw


def scenarios(ctx):
    for k, kw in configs(ctx, 240, 3000):
        yield Scenario("PrequentialTrace", "%s-m%d%s/%d" % (kw["kind"], kw["models"], "-inf" if kw["inf"] else "", k), play, **kw)
