"""C26: adaptive random forests and streaming random patches against spec/Forest.tla.  The trees stay at their roots (no split is ever
due), so they count what they are taught; the change detectors given to the ensembles signal after a number of errors and keep a journal."""
import copy
import inspect

import numpy as np

from rec import Scenario, attempt


class Journal:
    def __init__(self):
        self.log, self.made = [], 0

    def __deepcopy__(self, memo):
        return self


def detector(level, kind, journal):
    from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector

    class Counter(BaseDriftDetector):
        """signals change once `level` inputs of 0.6 or more have come since it was made or reset"""
        def __init__(self, level, kind, journal):
            super().__init__()
            self.level, self.kind, self.journal = level, kind, journal
            self._new()
            BaseDriftDetector.reset(self)
            self.n = 0

        def _new(self):
            self.journal.made += 1
            self.no = self.journal.made
            self.journal.log.append(("made", self.no, self.kind))

        def __deepcopy__(self, memo):
            d = type(self)(self.level, self.kind, self.journal)
            d.n, d.in_concept_change = self.n, self.in_concept_change
            return d

        def reset(self):
            super().reset()
            self.n = 0

        def add_element(self, v):
            v = float(np.ravel(v)[0])
            self.journal.log.append(("fed", self.no, self.kind, v))
            self.n += v >= 0.6
            self.in_concept_change = self.n >= self.level

        def detected_change(self):
            return self.n >= self.level

    return Counter(level, kind, journal)


class Leaf:
    """base estimator of streaming random patches: counts labels, and notes which columns it is shown"""
    _estimator_type = "classifier"

    def __init__(self, k, journal, nominal_attributes=None):
        self.k, self.journal = k, journal
        self.nominal_attributes = nominal_attributes
        self.cnt = np.zeros(k, dtype=int)

    def reset(self):
        self.cnt = np.zeros(self.k, dtype=int)
        return self

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        for j in range(len(X)):
            w = 1 if sample_weight is None else int(sample_weight[j])
            self.cnt[int(y[j])] += w
            self.journal.log.append(("teach", int(y[j]), w, [int(v) // 1000 for v in X[j]], sorted({int(v) % 1000 for v in X[j]}),
                                     sorted(int(X[j][i]) // 1000 for i in (self.nominal_attributes or []))))
        return self

    def predict(self, X):
        return np.array([int(np.argmax(self.cnt))] * len(X))

    def predict_proba(self, X):
        if self.cnt.sum() == 0:
            return np.zeros((len(X), 1))
        return np.array([self.cnt.astype(float)] * len(X))

    def get_params(self, deep=True):
        return {"k": self.k, "journal": self.journal, "nominal_attributes": self.nominal_attributes}

    def get_info(self):
        return "Leaf"


class Spy:
    """notes what the trees of the forests are taught"""
    def __init__(self, journal, cls):
        self.journal, self.cls = journal, cls

    def __enter__(self):
        self.orig = orig = self.cls.partial_fit
        sig = inspect.signature(orig)
        journal = self.journal

        def partial_fit(*a, **k):
            b = sig.bind(*a, **k).arguments
            X, y = np.asarray(b["X"]), np.ravel(b["y"])
            w = b.get("sample_weight")
            for j in range(len(X)):
                v = 1 if w is None else np.ravel(w)[j]
                journal.log.append(("teach", y[j], v, [int(x) // 1000 for x in X[j]], sorted({int(x) % 1000 for x in X[j]}), []))
            return orig(*a, **k)
        self.cls.partial_fit = partial_fit
        return self

    def __exit__(self, *a):
        self.cls.partial_fit = self.orig


def make(p, jr, seed):
    from skmultiflow import meta as M
    wd = detector(p["tw"], "warn", jr) if p["warn"] else None
    dd = detector(p["td"], "drift", jr) if p["drift"] else None
    if p["kind"] == "arf":
        return M.AdaptiveRandomForestClassifier(n_estimators=p["n"], lambda_value=p["lam"], disable_weighted_vote=not p["weighted"], grace_period=10 ** 7,
                                                leaf_prediction="mc", drift_detection_method=dd, warning_detection_method=wd, random_state=seed)
    if p["kind"] == "arfr":
        return M.AdaptiveRandomForestRegressor(n_estimators=p["n"], lambda_value=p["lam"], grace_period=10 ** 7, leaf_prediction="mean",
                                               aggregation_method=p["agg"], weighted_vote_strategy=None if p["err"] == "none" else p["err"],
                                               drift_detection_criteria=p["crit"], drift_detection_method=dd, warning_detection_method=wd, random_state=seed)
    return M.StreamingRandomPatchesClassifier(base_estimator=Leaf(p["K"], jr), n_estimators=p["n"], subspace_mode=p["mode"], subspace_size=p["size"],
                                              training_method=p["train"], lam=p["lam"], disable_weighted_vote=not p["weighted"],
                                              disable_drift_detection=not p["drift"], disable_background_learner=not p["warn"],
                                              drift_detection_method=dd or detector(3, "drift", jr), warning_detection_method=wd or detector(3, "warn", jr),
                                              nominal_attributes=list(p["nom"]) or None, random_state=seed)


def run(rec, p, seed, n, weighted, span, noise):
    from skmultiflow.trees.arf_hoeffding_tree import ARFHoeffdingTreeClassifier
    from skmultiflow.trees.arf_hoeffding_tree_regressor import ARFHoeffdingTreeRegressor
    jr = Journal()
    r = np.random.RandomState(seed)
    cls = {"arf": ARFHoeffdingTreeClassifier, "arfr": ARFHoeffdingTreeRegressor}.get(p["kind"])
    rec.cfg = {"p": p}
    if cls is None:
        body(rec, p, jr, r, seed, n, weighted, span, noise)
    else:
        with Spy(jr, cls):
            body(rec, p, jr, r, seed, n, weighted, span, noise)


def body(rec, p, jr, r, seed, n, weighted, span, noise):
    m = make(p, jr, seed)
    del jr.log[:]
    owner, fresh = {}, {"warn": 0, "drift": 0}

    def claim(log):
        """detectors of a new ensemble belong to its members in turn"""
        for e in log:
            if e[0] == "made":
                owner[e[1]] = fresh[e[2]] % p["n"]
                fresh[e[2]] += 1

    def ask():
        q = int(r.randint(1, 4))
        X = r.rand(q, p["nf"])
        out, why = attempt(lambda: (m.predict(X), m.predict_proba(X) if p["kind"] != "arfr" else []))
        claim(jr.log)
        del jr.log[:]
        if why:
            rec.ev("ask", raised=why, pred=[], proba=[])
        elif p["kind"] == "arfr":
            rec.ev("ask", raised="", pred=[repr(float(v)) for v in out[0]], proba=[])
        else:
            rec.ev("ask", raised="", pred=[int(v) for v in out[0]], proba=[[float(x) for x in row] for row in out[1]])

    if r.rand() < 0.7:
        ask()
    at, told, phase, turn = 0, False, 0, span
    while at < n:
        b = int(min(n - at, r.choice([1, 1, 2, 5, 12])))
        if at >= turn:
            phase, turn = phase + 1, at + span
        X = np.array([[1000.0 * f + at + j + 1 for f in range(p["nf"])] for j in range(b)])
        if p["kind"] == "arfr":
            y = np.round(phase * 7 % 5 + r.randn(b) * noise, 3)
        else:
            y = np.where(r.rand(b) < noise, r.randint(p["K"], size=b), phase % p["K"])
        now = weighted and r.rand() < 0.6
        ws = r.randint(1, 4, b) if now else np.ones(b, dtype=int)
        kw = {"sample_weight": ws.astype(float)} if now else {}
        if p["kind"] != "arfr" and (r.rand() < 0.3):
            kw["classes"] = list(range(p["K"]))
        rec.hold(X, y)
        _, why = attempt(m.partial_fit, X, y, **kw)
        taught = [[[] for _ in range(p["n"])] for _ in range(b)]
        fed = [[{"warn": [], "drift": []} for _ in range(p["n"])] for _ in range(b)]
        odd, pend, who, j, turns = "", [], None, 0, 0
        for e in jr.log:
            if e[0] == "teach":
                if not (len(e[4]) == 1 and 1 <= e[4][0] - at <= b):
                    odd = odd or "a tree is trained with a row that was not given"
                    continue
                if who is not None:            # the member before is done
                    who = None
                    pend = []
                j = e[4][0] - at - 1
                if p["kind"] == "arfr":
                    w = int(e[2]) if e[2] == int(e[2]) else -1
                    t = {"y": repr(float(e[1])), "w": w, "cols": e[3], "nom": []}
                else:
                    t = {"y": int(e[1]), "w": int(e[2]) if e[2] == int(e[2]) else -1, "cols": e[3], "nom": e[5]}
                if not p["drift"]:             # no detectors to tell the members apart: every member is taught every row, in turn
                    taught[j][sum(1 for v in taught[j] if v) % p["n"]].append(t)
                else:
                    pend.append(t)
            elif e[0] == "fed":
                o = owner.get(e[1])
                if o is None:
                    odd = odd or "a detector that belongs to no member is used"
                    continue
                if who is None:
                    who = o
                    taught[j][o] += pend
                elif who != o:
                    odd = odd or "a member's error goes to another member's detector"
                fed[j][o][e[2]].append(repr(e[3]))
            else:
                if who is None:
                    claim([e])
                else:
                    owner[e[1]] = who
        del jr.log[:]
        rec.ev("fit", ys=[repr(float(v)) for v in y] if p["kind"] == "arfr" else [int(v) for v in y], ws=[int(v) for v in ws], raised=why, odd=odd,
               taught=taught, fed=fed)
        if why or odd:
            return
        at += b
        if r.rand() < 0.35 or at >= n:
            ask()
        if r.rand() < 0.01:
            m.reset()
            del jr.log[:]
            owner.clear()
            fresh.update(warn=0, drift=0)
            rec.ev("reset")
            if r.rand() < 0.5:
                ask()


def subspaces(rec, p, seed):
    rec.cfg = {"p": p}
    seen = []
    for k in range(80):
        jr = Journal()
        m = make(p, jr, seed * 1000 + k)
        m.partial_fit(np.array([[1000.0 * f + 1 for f in range(p["nf"])]]), np.array([0]))
        seen += [e[3] for e in jr.log if e[0] == "teach"]
    rec.ev("subspaces", seen=seen)


def always(on):
    """a detector that signals at every input, or never; its copies are the same object"""
    from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector

    class Always(BaseDriftDetector):
        def __init__(self, on):
            super().__init__()
            self.on = on

        def __deepcopy__(self, memo):
            return self

        def add_element(self, v):
            pass

        def detected_change(self):
            return self.on
    return Always(on)


def grown(p, mf, seed, n, own, warn=None, drift=None):
    """per tree trained in a forest of n trees, the attribute its root is split on (attribute k being the k-th best)"""
    from skmultiflow import meta as M
    from skmultiflow.trees.arf_hoeffding_tree import ARFHoeffdingTreeClassifier
    from skmultiflow.trees.arf_hoeffding_tree_regressor import ARFHoeffdingTreeRegressor
    r = np.random.RandomState(seed)
    nf, cls = p["nf"], ARFHoeffdingTreeClassifier if p["kind"] == "arf" else ARFHoeffdingTreeRegressor
    col = r.permutation(nf)                      # rank -> column
    right = [0.98, 0.86, 0.74, 0.62][:nf]
    rows = 400 if warn is None else 500
    y = r.randint(0, 2, rows)
    X = np.zeros((rows, nf))
    for k in range(nf):
        ok = np.concatenate([r.permutation(50) < 50 * right[k] for _ in range(rows // 50)])
        X[:, col[k]] = np.where(ok, y, 1 - y)
    kw = dict(n_estimators=n, max_features=mf, grace_period=2000, random_state=seed if own == "int" else np.random.RandomState(seed), drift_detection_method=drift, warning_detection_method=warn)
    if p["kind"] == "arf":
        m = M.AdaptiveRandomForestClassifier(leaf_prediction="mc", **kw)
    else:
        m = M.AdaptiveRandomForestRegressor(leaf_prediction="mean", **kw)
    trees, orig = [], cls.partial_fit

    def partial_fit(self, *a, **k):
        if not any(t is self for t in trees):
            trees.append(self)
        return orig(self, *a, **k)
    cls.partial_fit = partial_fit
    try:
        for j in range(0, rows, 50):
            if warn is not None:
                warn.on = j == 0
            if p["kind"] == "arf":
                m.partial_fit(X[j:j + 50], y[j:j + 50], classes=[0, 1])
            else:
                m.partial_fit(X[j:j + 50], y[j:j + 50].astype(float))
    finally:
        cls.partial_fit = orig
    seen = []
    for t in trees:
        at = np.zeros((nf + 1, nf))
        for k in range(nf):
            at[k + 1, col[k]] = 1
        v = t.predict(at)
        seen.append([k + 1 for k in range(nf) if v[k + 1] != v[0]])
    return seen


def considered(rec, p, mf, seed, own):
    """which attribute each of many trees splits its root on, the attributes being more and more informative: the best of those it considers"""
    rec.cfg = {"p": p}
    rec.ev("considered", seen=grown(p, mf, seed, p["n"], own))


def renewed(rec, p, mf, seed):
    """the same of a tree and of the background trees made while it grows"""
    rec.cfg = {"p": p}
    for k in range(12):
        seen = grown(p, mf, seed * 100 + k, 1, "int", warn=always(True), drift=always(False))
        rec.ev("renewed", first=seen[0], later=[s for s in seen[1:] if s])


def redrawn(rec, p, seed, n, back):
    """the subspaces of one patches member whose tree is replaced at every row"""
    from skmultiflow import meta as M
    rec.cfg = {"p": p}
    jr = Journal()
    m = M.StreamingRandomPatchesClassifier(base_estimator=Leaf(2, jr), n_estimators=1, subspace_mode="m", subspace_size=p["size"], training_method="randomsubspaces",
                                           disable_background_learner=not back, drift_detection_method=always(True), warning_detection_method=always(True), random_state=seed)
    for k in range(n):
        m.partial_fit(np.array([[1000.0 * f + k + 1 for f in range(p["nf"])]]), np.array([k % 2]))
    rec.ev("subspaces", seen=[e[3] for e in jr.log if e[0] == "teach"][1:])


MF = [1, 2, 3, 4, -1, -3, -9, 9, 0.5, 0.8, 1.0, "auto", "sqrt", "log2", None]


def params(kind, r, **over):
    p = {"kind": kind, "n": int(r.randint(1, 5)), "K": int(r.randint(2, 5)), "nf": int(r.randint(2, 7)), "lam": int(r.choice([1, 6, 6, 2])), "weighted": bool(r.rand() < 0.7),
         "warn": bool(r.rand() < 0.75), "drift": bool(r.rand() < 0.9), "tw": int(r.randint(2, 6)), "td": int(r.randint(4, 12)), "agg": str(r.choice(["mean", "median"])),
         "err": str(r.choice(["mse", "mae", "none"])), "crit": str(r.choice(["mse", "mae", "predictions"])),
         "mode": str(r.choice(["percentage", "m", "sqrtM1", "MsqrtM1"])), "size": 60, "train": str(r.choice(["randompatches", "randomsubspaces", "resampling"]))}
    if kind == "srp":
        p["size"] = int(r.choice([60, 40, 80, -30, 25])) if p["mode"] == "percentage" else int(r.choice([1, 2, 3, -1, 0]))
    p["nom"] = sorted(int(v) for v in r.permutation(p["nf"])[:r.randint(0, p["nf"] + 1)]) if kind == "srp" and r.rand() < 0.5 else []
    if r.rand() < 0.3:
        p["td"] = p["tw"] * int(r.choice([1, 2]))
    p.update(over)
    if not p["drift"]:
        p["lam"] = 30
        p["warn"] = p["warn"] and kind == "srp"
    return p


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 53 + 26)
    for kind, k0 in (("arf", 24), ("srp", 30), ("arfr", 24)):
        for k in range(ctx.n(k0, k0 * 10)):
            p = params(kind, r)
            yield Scenario("ForestTrace", "%s/%d" % (kind, k), run, p=p, seed=ctx.seed * 1000 + k, n=int(r.choice([150, 300])), weighted=kind != "arfr" and bool(r.rand() < 0.4),
                           span=int(r.choice([15, 30, 60])), noise=float(r.choice([0.1, 0.3])))
    for k in range(ctx.n(3, 12)):            # drifts at the very rows of warnings
        p = params("srp", r, n=3, nf=5, mode="m", size=3, train="randompatches", drift=True, warn=True, tw=3, td=3, lam=6, nom=[0, 2, 4])
        yield Scenario("ForestTrace", "srp-together/%d" % k, run, p=p, seed=ctx.seed * 1000 + k, n=200, weighted=False, span=20, noise=0.2)
    for k, (nf, size) in enumerate(((4, 2), (5, 3))):
        p = params("srp", r, n=2, nf=nf, mode="m", size=size, train="randompatches", drift=False, warn=False)
        yield Scenario("ForestTrace", "kf-subspaces/%d" % k, subspaces, kf="F14", p=p, seed=3)
    for k, (nf, size) in enumerate(((4, 2), (5, 3), (5, 1), (4, 3))):
        p = params("srp", r, n=1, nf=nf, mode="m", size=size, train="randomsubspaces")
        yield Scenario("ForestTrace", "redrawn/%d" % k, redrawn, p=p, seed=ctx.seed * 1000 + k, n=200, back=k % 2 == 1)

    def feats(kind, mf, nf, n=40):
        return params(kind, r, n=n, nf=nf, mf="none" if mf is None else str(mf), mfkind="int" if isinstance(mf, int) else "float" if isinstance(mf, float) else "word")
    for k in range(ctx.n(10, 80)):
        kind = ("arf", "arfr")[k % 2]
        mf = MF[int(r.randint(len(MF)))]
        # (a classifier forest seeded with a number: F15)
        yield Scenario("ForestTrace", "considered/%s/%s/%d" % (kind, mf, k), considered, p=feats(kind, mf, int(r.choice([3, 4]))), mf=mf, seed=ctx.seed * 1000 + k,
                       own="state" if kind == "arf" or k % 4 == 1 else "int")
    yield Scenario("ForestTrace", "kf-features/arf", considered, kf="F15", p=feats("arf", 1, 3), mf=1, seed=3, own="int")
    yield Scenario("ForestTrace", "renewed/arf", renewed, p=feats("arf", 1, 4, n=1), mf=1, seed=ctx.seed)
    yield Scenario("ForestTrace", "kf-renewed/arfr", renewed, kf="F16", p=feats("arfr", 1, 4, n=1), mf=1, seed=ctx.seed)
