"""C15: KSWIN."""
import numpy as np

from rec import Scenario


def play(rec, alpha, window, stat, xs, resets=(), data=None):
    from skmultiflow.drift_detection import KSWIN
    kw = {} if data is None else {"data": np.array(data)}
    d = KSWIN(alpha=alpha, window_size=window, stat_size=stat, **kw)
    rec.cfg = {"det": "KSWIN", "alpha": repr(alpha), "window": window, "stat": stat,
               "data": [] if data is None else [repr(float(v)) for v in data]}
    for k, x in enumerate(xs):
        if k in resets:
            d.reset()
            rec.ev("reset", chg=bool(d.detected_change()), w=np.asarray(d.window, float))
        d.add_element(x)
        rec.ev("add", x=float(x), chg=bool(d.detected_change()), p=float(d.p_value), w=np.asarray(d.window, float))


def draw(rec, window, stat, zone, reps, seed):
    """which part of the older values does the comparison sample come from?"""
    from skmultiflow.drift_detection import KSWIN
    old = window - 1 - stat
    third = old // 3
    lo, hi = [(0, third), (third, 2 * third), (2 * third, old)][zone]
    share = (hi - lo) / old
    rec.cfg = {"det": "KSDRAW", "stat": stat, "lo": repr(share - 0.15), "hi": repr(share + 0.15)}
    np.random.seed(seed)
    for _ in range(reps):
        w = np.ones(window)
        w[1 + lo:1 + hi] = 0.0
        d = KSWIN(alpha=1e-9, window_size=window, stat_size=stat, data=w)
        d.add_element(1.0)
        rec.ev("draw", p=float(d.p_value))


def stream(r, n, kind, window):
    out, v = [], 0.0
    for k in range(n):
        if kind == "const":          # long constant stretches with short disturbances
            if k % window == 0:
                v = float(r.randint(3))
            out.append(v if r.rand() < 0.9 else v + float(r.choice([-1, 1, 2])))
        elif kind == "steps":
            if k % (2 * window) == 0:
                v = float(r.randint(50))
            out.append(v + (0.0 if k % (4 * window) < 2 * window else float(r.rand())))
        else:
            if k % (window + 13) == 0:
                v = float(r.choice([0, 0, 0.5, 2]))
            out.append(v + float(r.randn()))
    return out


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 7 + 15)
    for k in range(ctx.n(45, 450)):
        window, stat = [(100, 30), (20, 5), (40, 10), (61, 30), (30, 12)][k % 5]
        kind = ["const", "steps", "real"][k % 3]
        n = min(6 * window, 330)
        yield Scenario("DetectorsTrace", "%s/%d" % (kind, k), play, alpha=float(r.choice([0.005, 0.05, 0.0001])), window=window,
                       stat=stat, xs=stream(r, n, kind, window), resets=[int(r.randint(n))] if k % 4 == 0 else [],
                       data=None if k % 6 else [float(v) for v in r.randn(window - 3)])
    for k in range(9):
        window, stat = [(100, 30), (61, 20), (80, 12)][k // 3]
        yield Scenario("DetectorsTrace", "draw/%d" % k, draw, window=window, stat=stat, zone=k % 3, reps=60, seed=ctx.seed * 31 + k)
