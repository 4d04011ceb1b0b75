"""C09: classification metrics."""
import numpy as np

from rec import Scenario


def ask(rec, ev, classes):
    m = {"accuracy": ev.accuracy_score(), "kappa": ev.kappa_score(), "kappa_t": ev.kappa_t_score(),
         "kappa_m": ev.kappa_m_score(), "precision": ev.precision_score(), "recall": ev.recall_score(),
         "f1": ev.f1_score(), "geometric_mean": ev.geometric_mean_score(), "majority_class": ev.majority_class(),
         "n_samples": ev.n_samples, "n_classes": ev.confusion_matrix.n_classes}
    m["last_true"], m["last_pred"] = ev.get_last()
    rec.ev("ask", m=m, cls=[[c, ev.precision_score(c), ev.recall_score(c), ev.f1_score(c)] for c in classes],
           conf=[[i, j, ev.confusion_matrix[(i, j)]] for i in classes for j in classes])


def play(rec, n, W, ops, every=1):
    from skmultiflow.metrics import ClassificationPerformanceEvaluator as C, WindowClassificationPerformanceEvaluator as WC
    ev = WC(n_classes=n, window_size=W) if W else C(n_classes=n)
    rec.cfg = {"kind": "class", "W": W, "n": n, "tol": "1e-9"}
    k = 0
    ask(rec, ev, [0, 1])
    for o in ops:
        if o[0] == "reset":
            ev.reset()
            rec.ev("reset")
            ask(rec, ev, [0, 1])
        else:
            _, t, p, w = o
            if w == 1 and k % 2:
                ev.add_result(t, p)
            else:
                ev.add_result(t, p, w)
            rec.ev("add", t=t, p=p, w=w)
            k += 1
            if k % every == 0:
                ask(rec, ev, [0, 1, 2, 3])


def rand_ops(r, n, nc, wts, resets):
    ops = []
    bias = r.rand()
    t = 0
    for k in range(n):
        if resets and r.rand() < 0.03:
            ops.append(("reset",))
        if r.rand() < 0.5:
            t = int(r.randint(nc))
        p = t if r.rand() < bias else int(r.randint(nc))
        ops.append(("add", t, p, float(r.choice(wts)) if wts else 1))
    return ops


def scenarios(ctx):
    for k, b in enumerate(ctx.beh["ops"]):
        ops = [("reset",) if o["op"] == "reset" else ("add", o["t"], o["p"], 1) for o in b]
        for W in (0, 2):
            yield Scenario("MetricsTrace", "gen-W%d/%d" % (W, k), play, n=2, W=W, ops=ops)
    r = np.random.RandomState(ctx.seed)
    for k in range(ctx.n(90, 900)):
        nc = int(r.choice([2, 2, 3, 5]))
        n0 = int(r.choice([2, 2, 3, 6]))
        W = int(r.choice([0, 0, 1, 2, 5, 20, 50]))
        wts = [[], [], [0.5, 1, 2, 4], [0, 1, 2], [1, 3, 8]][k % 5]
        n = int(r.choice([10, 40, 120]))
        yield Scenario("MetricsTrace", "rand-%s-%s/%d" % ("win" if W else "cum", "weighted" if wts else "unit", k),
                       play, n=n0, W=W, ops=rand_ops(r, n, nc, wts, k % 3 == 0), every=max(1, n // 12))
