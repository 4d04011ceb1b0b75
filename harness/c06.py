"""C06: delayed labels."""
import numpy as np

from rec import Scenario
from evalrig import order_trace, run

T0 = np.datetime64("2020-01-01T00:00:00")


def play(rec, **kw):
    order_trace(rec, run("delayed", **kw))


def configs(ctx, nq, nt):
    r = np.random.RandomState(ctx.seed * 11 + 6)
    for k in range(ctx.n(nq, nt)):
        n = int(r.choice([20, 25, 40, 63, 100]))
        kw = dict(kind=["class", "label", "reg", "mreg"][k % 4], n=n, seed=int(r.randint(1e6)), models=int(r.choice([1, 2, 3])),
                  batch=int(r.choice([1, 1, 2, 3, 7, 16])), pre=int(r.choice([0, 1, 5, 13])),
                  wait=int(r.choice([1, 5, 10, 20, 33])), limit=int(r.choice([20, 25, 50, 1000])),
                  restart=bool(r.rand() < 0.7), weights=bool(r.rand() < 0.5))
        mode = k % 3
        if mode == 0:
            kw["delay"] = int(r.choice([0, 1, 2, 5, 30, 500]))
        else:
            step = r.choice([0, 1, 1, 10, 60], n)
            arr = np.cumsum(step)
            d = r.choice([0, 1, 30, 100, 100, 1000], n) if mode == 1 else np.full(n, int(r.choice([0, 5, 50, 300])))
            kw["arr"] = T0 + arr.astype("timedelta64[s]")
            kw["avail"] = T0 + (arr + d).astype("timedelta64[s]")
        yield k, kw


def scenarios(ctx):
    for k, kw in configs(ctx, 240, 2500):
        yield Scenario("DelayedTrace", "%s-%s%s/%d" % (kw["kind"], "samples" if "delay" in kw else "time",
                                                      "-w" if kw["weights"] else "", k), play, **kw)
