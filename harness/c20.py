"""C20: every answer is well formed."""
import numpy as np

from rec import Scenario, attempt
from c18 import SLOW
import estimators as E

# probabilities are votes that do not add up to one
VOTES = {"SRP-patches", "SRP-subspaces", "SRP-resampling", "LearnPP", "LearnPPNSE", "LearnPPNSE-age"}
# votes are log-odds and may be negative
ODDS = {"OnlineBoosting", "OnlineBoosting-knn", "OnlineAdaC2", "OnlineCSB2", "OnlineRUSBoost-1", "OnlineRUSBoost-2", "OnlineRUSBoost-3"}
# cannot be asked before they were taught
SILENT = {"Perceptron", "RSLVQ", "RSLVQ-adadelta", "MultiOutput-perc", "MultiOutput-NB", "MultiOutput-reg", "CC", "CC-random",
          "PCC", "MCC", "RC"}
# need every class in the first call
WHOLE = {"RSLVQ", "RSLVQ-adadelta", "MultiOutput-perc", "MultiOutput-NB", "CC", "CC-random", "PCC", "MCC"}
# classes must be 0..K-1
DENSE = ODDS | {"Perceptron", "RSLVQ", "RSLVQ-adadelta", "LevBag-code"}
# need not be told the classes
UNTOLD = {"NaiveBayes", "NaiveBayes-nominal", "KNN", "KNNADWIN", "KNNADWIN-wide", "SAMKNN", "SAMKNN-stm", "HAT-mc", "ARF-kappa", "HT-mc", "HT-nb", "HT-nba", "HT-gini-binary", "HT-hellinger",
          "HT-nominal", "HAT", "HAT-noboot", "EFDT", "VFDR", "VFDR-ordered-drift", "ARF", "ARF-all", "BatchIncremental", "AWE", "DWM", "AddExp",
          "AddExp-oldest", "SRP-patches", "SRP-subspaces", "SRP-resampling"}
BYPOS = {"LearnPP", "LearnPPNSE", "LearnPPNSE-age"}            # columns are the classes in ascending order, not labels
NOPROBA = {"BatchIncremental"}             # predict_proba gives one number per row


def data(kind, seed, n, mode, drift):
    X, y = E.batch(kind, seed, n, drift)
    r = np.random.RandomState(seed + 5)
    if mode == "constant":
        X[:, [0, 1, 3]] = 1.5
    elif mode == "halfconstant":
        X[:, 0] = 0.0
    elif mode == "huge":
        X[:, [0, 1, 3]] *= 1e6
    elif mode == "tiny":
        X[:, [0, 1, 3]] *= 1e-6
    elif mode == "ints":
        X = np.floor(X)
    elif mode == "dups":
        k = r.randint(0, min(4, n), n)
        X, y = X[k], y[k] if kind in ("reg", "mtreg") else y
    elif mode == "negative":
        X[:, [0, 1, 3]] -= 5
    elif mode == "skew" and kind in ("cls", "bin", "anom"):
        y = np.where(r.rand(n) < 0.93, 0, y)
    return X, y


NEGATIVE = {"ARF-kappa"}                   # known finding F13


def answers(rec, learner, seed, ops, mode, told, gap, strict=False):
    kind, make = E.registry()[learner]
    remap = np.array([0, 2, 5]) if gap else np.array([0, 1, 2])
    C = [int(remap[c]) for c in E.classes(kind)] if E.classes(kind) else []
    width = {"ml": 3, "mtreg": 2}.get(kind, 0)
    rec.cfg = {"learner": learner, "kind": kind, "labels": C, "told": bool(told), "unit": learner not in VOTES | ODDS | NEGATIVE or strict,
               "odds": learner in ODDS or (learner in NEGATIVE and not strict), "bypos": learner in BYPOS, "width": width}
    m = make()
    r = np.random.RandomState(seed)
    fresh = True

    def ask():
        n = int([1, 2, 5, 9][r.randint(4)])
        Q = data(kind, seed + 900 + r.randint(99), n, mode if r.rand() < 0.7 else "plain", 0)[0]
        p, why = attempt(m.predict, Q)
        if why:
            rec.ev("ask", n=n, raised=why, p=[], q=[], has=False)
            return
        p = np.asarray(p)
        q = None
        if learner not in NOPROBA:
            try:
                q = m.predict_proba(Q)
            except (NotImplementedError, AttributeError):
                q = None
        has = q is not None
        if has:
            q = [np.ravel(np.asarray(v, dtype=float)) for v in q]
        rec.ev("ask", n=n, raised="", p=[np.ravel(v) for v in p] if p.ndim else [], q=q if has else [], has=has)

    if learner not in SILENT:
        ask()
    seen = set()
    for j, o in enumerate(ops):
        n = o["n"] * 7 if not (fresh and learner in WHOLE) else 90
        X, y = data(kind, seed * 7 + j, n, mode, j)
        if kind in ("cls", "bin", "anom"):
            y = remap[y]
            if fresh and learner in WHOLE:
                y[:len(C)] = C
        kw = dict(classes=list(C)) if C and told else {}
        if r.rand() < 0.3 and not learner.startswith("SAMKNN"):
            kw["sample_weight"] = np.ones(n)
        if fresh and kind == "ml" and learner in WHOLE:
            y[:2] = [[0, 0, 0], [1, 1, 1]]
        _, why = attempt(m.partial_fit, X, y, **kw)
        fresh = False
        rec.ev("fit", raised=why, labels=sorted({int(v) for v in np.ravel(y)}) if kind in ("cls", "bin", "anom") else [])
        if why:
            return
        if o["ask"]:
            ask()
            ask()
        if r.rand() < 0.08 and learner not in SILENT | WHOLE:
            m.reset()
            rec.ev("reset")
            fresh = True
            ask()
    ask()


MODES = ["plain", "constant", "halfconstant", "huge", "tiny", "ints", "dups", "negative", "skew"]


def scenarios(ctx):
    beh = ctx.beh["ops"]
    r = np.random.RandomState(ctx.seed * 41 + 20)
    for learner in E.registry():
        if learner == "LearnPP":
            modes = ["plain"]
        else:
            modes = [m for m in MODES if m != "huge"] if learner == "Perceptron" else MODES
        kind = E.registry()[learner][0]
        n = ctx.n(4 if learner in SLOW else 9, 45)
        for k in range(n):
            b = int(r.randint(len(beh)))
            yield Scenario("AnswersTrace", "%s/%s-%d" % (learner, modes[k % len(modes)], k), answers, learner=learner, seed=ctx.seed * 100 + k,
                           ops=beh[b] * (2 if learner in SLOW else 4), mode=modes[k % len(modes)],
                           told=not (learner in UNTOLD and k % 3 == 1), gap=kind in ("cls", "bin") and learner not in DENSE and k % 2 == 1)
    yield Scenario("AnswersTrace", "kf-negative/ARF-kappa", answers, kf="F13", learner="ARF-kappa", seed=100, strict=True,
                   ops=[{"n": k, "ask": True} for k in (1, 2, 1, 3, 2, 1) * 3], mode="constant", told=True, gap=False)
