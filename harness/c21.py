"""C21: DWM and AddExp ensembles against spec/Experts.tla, with probes as experts."""
import numpy as np

from rec import Scenario, attempt
from stubs import Probe


def run(rec, kind, p, seed, n, beh=None):
    from skmultiflow.meta import DynamicWeightedMajorityClassifier as DWM, AdditiveExpertEnsembleClassifier as AddExp
    r = np.random.RandomState(seed)
    probe = Probe(p["k"], p["slow"])
    if kind == "dwm":
        m = DWM(n_estimators=p["n"], base_estimator=probe, period=p["period"], beta=float(p["beta"]), theta=float(p["theta"]))
    else:
        m = AddExp(n_estimators=p["n"], base_estimator=probe, beta=float(p["beta"]), gamma=float(p["gamma"]), pruning=p["pruning"])
    rec.cfg = {"p": p}
    rows = [(int(c), int(y)) for c, y in beh] if beh else None

    def ask():
        codes = list(range(p["k"]))
        X = np.column_stack([codes, r.rand(len(codes))])
        pred, why = attempt(m.predict, X)
        assert not why, why
        # a row of code -1 makes a probe tell its age; the weights where the experts show them
        ages = [int(v) for v in np.array(m.get_expert_predictions(np.array([[-1.0, 0.0]])))[:, 0]]
        preds = np.array(m.get_expert_predictions(X))
        assert preds.shape == (len(ages), len(codes)), "get_expert_predictions does not give one row per expert"
        for age, q in zip(ages, preds):
            assert list(q) == [(c + age // p["slow"]) % p["k"] for c in codes], "get_expert_predictions gives something else than the experts' predictions"
        try:
            w = np.array([float(e.weight) for e in m.experts])
        except AttributeError:
            w = np.array([])
        rec.ev("ask", codes=codes, pred=np.asarray(pred), ages=ages, shares=list(w / w.sum()) if len(w) else [])

    ask()
    at, wrongness = 0, r.choice([0.2, 0.5, 0.9])
    while at < n:
        b = int(min(n - at, [1, 1, 2, 5, 9][r.randint(5)]))
        if rows:
            part = rows[at:at + b]
        else:
            # labels that follow the oldest probe for a while, then jump
            part = []
            for j in range(b):
                c = int(r.randint(p["k"]))
                lab = (c + (at + j) // 37) % p["k"] if r.rand() > wrongness else int(r.randint(p["k"]))
                part.append((c, lab))
        X = np.column_stack([[c for c, _ in part], r.rand(len(part))])
        y = np.array([v for _, v in part])
        kw = {} if p["k"] == 2 and r.rand() < 0.4 else {"classes": list(range(p["k"]))}     # a probe predicts classes it has not seen
        ws = [int(v) for v in r.randint(0, 4, len(part))] if p["weighted"] else [1] * len(part)
        if p["weighted"]:
            kw["sample_weight"] = np.array(ws)
        _, why = attempt(m.partial_fit, X, y, **kw)
        rec.ev("fit", codes=[c for c, _ in part], ys=y, ws=ws, raised=why)
        at += b
        if r.rand() < 0.5 or at >= n:
            ask()
        if not rows and r.rand() < 0.01:
            m.reset()
            rec.ev("reset")
            ask()


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 13 + 21)
    for j in range(ctx.n(40, 400)):
        p = {"kind": "dwm", "n": int(r.randint(1, 6)), "period": int([1, 2, 3, 5, 10][r.randint(5)]), "beta": ["0.5", "0.25", "0.125"][r.randint(3)],
             "theta": ["0.01", "0.1", "0.3"][r.randint(3)], "gamma": "0", "pruning": "", "k": int(r.randint(2, 5)), "slow": int([1, 3, 10][r.randint(3)]), "weighted": j % 3 == 2}
        yield Scenario("ExpertsTrace", "dwm-%d" % j, run, kind="dwm", p=p, seed=ctx.seed * 1000 + j, n=ctx.n(120, 400))
        p = dict(p, kind="add", beta="%.3f" % r.uniform(0.3, 0.95), gamma="%.3f" % r.uniform(0.03, 0.7), pruning=["weakest", "oldest"][r.randint(2)])
        yield Scenario("ExpertsTrace", "add-%d" % j, run, kind="add", p=p, seed=ctx.seed * 2000 + j, n=ctx.n(120, 400))
    for kind in ("dwm", "add"):
        for k, beh in enumerate(ctx.beh[kind]):
            if ctx.thorough or (k + ctx.seed) % 5 == 0:
                p = {"kind": kind, "n": 3, "period": 2, "beta": "0.5" if kind == "dwm" else "0.613", "theta": "0.2", "gamma": "0.137", "pruning": "weakest", "k": 2, "slow": 2, "weighted": False}
                yield Scenario("ExpertsTrace", "%s-all-%d" % (kind, k), run, kind=kind, p=p, seed=ctx.seed + k, n=len(beh), beh=beh)
