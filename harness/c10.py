"""C10: multi-label metrics."""
import numpy as np

from rec import Scenario


def play(rec, L, W, ops, every=1):
    from skmultiflow.metrics import MultiLabelClassificationPerformanceEvaluator as C, \
        WindowMultiLabelClassificationPerformanceEvaluator as WC
    ev = WC(n_labels=L, window_size=W) if W else C(n_labels=L)
    rec.cfg = {"kind": "label", "W": W, "n": L, "L": L, "tol": "1e-9"}

    def ask():
        rec.ev("ask", m={"hamming_score": ev.hamming_score(), "hamming_loss": ev.hamming_loss_score(),
                         "exact_match": ev.exact_match_score(), "jaccard": ev.jaccard_score(), "n_samples": ev.n_samples},
               cls=[], conf=[])
    ask()
    for k, o in enumerate(ops):
        if o[0] == "reset":
            ev.reset()
            rec.ev("reset")
            ask()
        else:
            # the caller may reuse its arrays
            t, p = np.array(o[1]), np.array(o[2])
            ev.add_result(t, p)
            rec.ev("add", t=o[1], p=o[2], w=1)
            if k % every == 0:
                ask()


def fns(rec, seed):
    from skmultiflow.metrics import hamming_score, exact_match, j_index
    r = np.random.RandomState(seed)
    rec.cfg = {"kind": "label", "W": 0, "n": 2, "L": 2, "tol": "1e-9"}
    for k in range(12):
        N, L = int(r.randint(1, 9)), int(r.randint(1, 6))
        t = (r.rand(N, L) < r.choice([0.1, 0.5, 0.9])).astype(int)
        p = np.where(r.rand(N, L) < 0.7, t, 1 - t)
        a = (t.tolist(), p.tolist()) if k % 3 == 0 else (t, p)
        rec.ev("fn", t=t, p=p, hamming=hamming_score(*a), exact=exact_match(*a), j=j_index(*a))


def rand_ops(r, n, L, resets):
    ops, flip, dens = [], r.rand() * 0.5, r.choice([0.1, 0.5, 0.9])
    for k in range(n):
        if resets and r.rand() < 0.05:
            ops.append(("reset",))
        t = (r.rand(L) < dens).astype(int)
        p = np.where(r.rand(L) < flip, 1 - t, t)
        ops.append(("add", t.tolist(), p.tolist()))
    return ops


def scenarios(ctx):
    import itertools
    vs = [list(v) for v in itertools.product([0, 1], repeat=2)]
    # every pair of results over two labels, window of one and cumulative
    k = 0
    for a in itertools.product(vs, vs):
        for b in itertools.product(vs, vs):
            k += 1
            for W in (0, 1):
                yield Scenario("MetricsTrace", "pairs-W%d/%d" % (W, k), play, L=2, W=W,
                               ops=[("add",) + a, ("add",) + b, ("add",) + a])
    r = np.random.RandomState(ctx.seed)
    for k in range(ctx.n(80, 800)):
        L = int(r.choice([2, 3, 5, 8]))
        W = int(r.choice([0, 0, 1, 2, 5, 20]))
        n = int(r.choice([8, 30, 80]))
        yield Scenario("MetricsTrace", "rand-%s/%d" % ("win" if W else "cum", k), play, L=L, W=W,
                       ops=rand_ops(r, n, L, k % 3 == 0), every=max(1, n // 10))
    for k in range(ctx.n(10, 100)):
        yield Scenario("MetricsTrace", "functions/%d" % k, fns, seed=ctx.seed * 1000 + k)
