"""C11: regression metrics."""
import numpy as np

from rec import Scenario


def play(rec, nt, W, ops, every=1):
    from skmultiflow import metrics as M
    if nt == 1:
        ev = M.WindowRegressionMeasurements(window_size=W) if W else M.RegressionMeasurements()
    else:
        ev = M.WindowMultiTargetRegressionMeasurements(window_size=W) if W else M.MultiTargetRegressionMeasurements()
    rec.cfg = {"kind": "reg" if nt == 1 else "mreg", "W": W, "n": nt, "tol": "1e-7"}

    def ask():
        n = ev.sample_count if hasattr(ev, "sample_count") else ev._sample_count
        if nt == 1:
            m = {"mse": ev.get_mean_square_error(), "mae": ev.get_average_error(), "n_samples": n}
        else:
            m = {"amse": ev.get_average_mean_square_error(), "amae": ev.get_average_absolute_error(),
                 "armse": ev.get_average_root_mean_square_error(), "n_samples": n}
        rec.ev("ask", m=m, cls=[], conf=[])
    ask()
    for k, o in enumerate(ops):
        if o[0] == "reset":
            ev.reset()
            rec.ev("reset")
            ask()
        else:
            t, p = (np.array(o[1]), np.array(o[2])) if nt > 1 else (o[1], o[2])
            ev.add_result(t, p)
            rec.ev("add", t=o[1], p=o[2], w=1)
            if k % every == 0:
                ask()


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed)
    for k in range(ctx.n(160, 1500)):
        nt = int(r.choice([1, 1, 2, 3]))
        W = int(r.choice([0, 0, 1, 2, 5, 30]))
        n = int(r.choice([5, 20, 80]))
        scale = float(r.choice([1, 1, 10, 100]))
        g = (lambda: float(r.randint(-8, 9)) * scale) if k % 2 else (lambda: float(r.randn() * scale))
        ops = []
        for j in range(n):
            if k % 3 == 0 and r.rand() < 0.05:
                ops.append(("reset",))
            if nt == 1:
                ops.append(("add", g(), g()))
            else:
                ops.append(("add", [g() for _ in range(nt)], [g() for _ in range(nt)]))
        yield Scenario("MetricsTrace", "%s-%s/%d" % ("single" if nt == 1 else "multi", "win" if W else "cum", k), play,
                       nt=nt, W=W, ops=ops, every=max(1, n // 12))
