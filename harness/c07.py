"""C07: holdout evaluation."""
import numpy as np

from rec import Scenario
from evalrig import order_trace, run


def play(rec, **kw):
    order_trace(rec, run("holdout", **kw))


def configs(ctx, nq, nt):
    r = np.random.RandomState(ctx.seed * 13 + 7)
    for k in range(ctx.n(nq, nt)):
        n = int(r.choice([40, 63, 100, 220]))
        kw = dict(kind=["class", "label", "reg", "mreg"][k % 4], n=n, seed=int(r.randint(1e6)), models=int(r.choice([1, 2, 3])),
                  batch=int(r.choice([1, 1, 2, 3, 7, 16])), wait=int(r.choice([2, 5, 10, 20, 21, 33])),
                  limit=int(r.choice([25, 50, 97, 1000])), test=int(r.choice([1, 5, 12])), dynamic=bool(r.rand() < 0.5),
                  restart=bool(r.rand() < 0.7), inf=bool(r.rand() < 0.25), skip=int(r.choice([0, 0, 0, 3])))
        if kw["dynamic"] and kw["test"] == kw["batch"]:
            kw["test"] += 1
        if kw["inf"]:
            kw["skip"] = 0
            kw["limit"] = min(kw["limit"], 200)
        yield k, kw


def scenarios(ctx):
    for k, kw in configs(ctx, 240, 2500):
        yield Scenario("HoldoutTrace", "%s-%s%s/%d" % (kw["kind"], "dynamic" if kw["dynamic"] else "static",
                                                      "-inf" if kw["inf"] else "", k), play, **kw)
