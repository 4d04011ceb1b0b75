"""C25: chunk ensembles against spec/Chunks.tla; the members keep a journal of what they are trained with and asked."""
import numpy as np

from rec import Scenario, attempt


class Journal:
    def __init__(self):
        self.log = []


class Member:
    """counts what it is trained with, per code (first attribute) and label"""
    _estimator_type = "classifier"

    def __init__(self, k, codes, journal):
        self.k, self.codes, self.journal = k, codes, journal
        self.cnt = {}

    def __deepcopy__(self, memo):
        m = type(self)(self.k, self.codes, self.journal)
        m.cnt = {c: dict(v) for c, v in self.cnt.items()}
        if hasattr(self, "classes_"):
            m.classes_ = self.classes_.copy()
        return m

    def note(self, X, y, w, cls):
        for j in range(len(X)):
            d = self.cnt.setdefault(int(X[j][0]), {})
            d[int(y[j])] = d.get(int(y[j]), 0) + (1 if w is None else w[j])
        self.journal.log.append({"what": "fit", "who": id(self), "ids": [int(x[1]) for x in X], "y": [int(v) for v in y],
                                 "ws": [] if w is None else [int(v) for v in w], "me": self})

    def known(self):
        raise NotImplementedError

    def predict(self, X):
        self.journal.log.append({"what": "ask", "who": id(self), "ids": [int(x[1]) for x in X], "me": self})
        out = []
        for x in X:
            d = self.cnt.get(int(x[0]), {})
            out.append(max(self.known(), key=lambda l: (d.get(l, 0), -l)))
        return np.array(out)

    def predict_proba(self, X):
        kn = self.known()
        out = []
        for x in X:
            d = self.cnt.get(int(x[0]), {})
            tot = sum(d.values()) + len(kn)
            out.append([(d.get(l, 0) + 1) / tot for l in kn])
        return np.array(out)

    def get_params(self, deep=True):
        return {"k": self.k, "codes": self.codes, "journal": self.journal}


class SkMember(Member):
    """as estimators of scikit-learn: fit starts anew; knows the labels it was trained with"""

    def known(self):
        return [int(v) for v in self.classes_]

    def fit(self, X, y, sample_weight=None):
        self.cnt = {}
        self.note(X, y, sample_weight, None)
        self.classes_ = np.unique(y).astype(int)
        return self


class MfMember(Member):
    """as estimators of scikit-multiflow: fit continues; knows all labels"""

    def known(self):
        return list(range(self.k))

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        self.note(X, y, sample_weight, classes)
        return self

    def fit(self, X, y, classes=None, sample_weight=None):
        return self.partial_fit(X, y, classes, sample_weight)

    def reset(self):
        self.cnt = {}
        return self


def make(p, base, seed):
    from skmultiflow import meta as M
    if p["kind"] == "bi":
        return M.BatchIncrementalClassifier(base, window_size=p["win"], n_estimators=p["n"])
    if p["kind"] == "awe":
        return M.AccuracyWeightedEnsembleClassifier(n_estimators=p["n"], n_kept_estimators=p["kept"], base_estimator=base, window_size=p["win"], n_splits=p["folds"])
    if p["kind"] == "nse":
        return M.LearnPPNSEClassifier(base, window_size=p["win"], slope=float(p["slope"]), crossing_point=p["cross"], n_estimators=p["n"],
                                      pruning=None if p["prune"] == "none" else p["prune"])
    return M.LearnPPClassifier(base, error_threshold=float(p["thr"]), n_estimators=p["n"], n_ensembles=p["nens"], window_size=p["win"], random_state=seed)


def run(rec, p, seed, labels, n, weighted, noise, span):
    r = np.random.RandomState(seed)
    jr = Journal()
    base = (SkMember if p["style"] == "sk" else MfMember)(p["K"], p["C"], jr)
    m = make(p, base, seed)
    rec.cfg = {"p": p}
    labels = np.array(labels)
    place = {int(v): k + 1 for k, v in enumerate(labels)}

    at, told, shift, since = 0, False, 0, 0

    def ask():
        codes = r.permutation(p["C"])[:r.randint(1, p["C"] + 1)]
        X = np.column_stack([codes, np.zeros(len(codes)), np.round(r.rand(len(codes)), 3)])
        before = [int(v) for v in m.predict(X)]
        ev = dict(c=[int(c) + 1 for c in codes], pred=[place.get(v, 0) for v in before], first=1 if told and p["kind"] == "lpp" else place.get(0, 0), proba=[])
        if p["kind"] in ("nse", "lpp"):
            ev["proba"] = np.asarray(m.predict_proba(X), dtype=float)
        rec.ev("ask", **ev)

    ask()
    while at < n:
        b = int(min(n - at, r.choice([1, 3, 10, 2 * p["win"] + 3])))
        if since >= span:
            shift, since = shift + 1, 0
        since += b
        c = r.randint(p["C"], size=b)
        k = (c + shift) % p["K"]
        k = np.where(r.rand(b) < noise, r.randint(p["K"], size=b), k)
        if p["K"] > 2 and shift % 2:
            k = np.where(k == p["K"] - 1, 0, k)              # a label is missing for a while
        ids = at + 1 + np.arange(b)
        X = np.column_stack([c, ids, np.round(r.rand(b), 3)]).astype(float)
        y = labels[k]
        now = weighted and r.rand() < 0.6
        w = r.randint(1, 4, b) if now else np.ones(b, dtype=int)
        kw = {"sample_weight": w} if now else {}
        if not told or r.rand() < 0.2:
            kw["classes"] = [int(v) for v in (labels if r.rand() < 0.7 else labels[::-1])]
            told = True
        del jr.log[:]
        rec.hold(X, y)
        _, why = attempt(m.partial_fit, X, y, **kw)
        train = []
        last = {}
        for e in jr.log:
            if e["what"] == "fit":
                d = {"ids": e["ids"], "ys": [place.get(v, 0) for v in e["y"]], "ws": e["ws"], "te": []}
                train.append(d)
                last[e["who"]] = d
            elif e["who"] in last and not last[e["who"]]["te"]:
                last[e["who"]]["te"] = e["ids"]
        tries = len(train)
        if why:
            train = []
        rec.ev("feed", tries=tries, c=[int(v) + 1 for v in c], y=[int(v) + 1 for v in k], w=[int(v) for v in w], weighted=weighted, raised=why, train=train)
        if why:
            return
        at += b
        if r.rand() < (0.9 if p["kind"] == "awe" else 0.4) or at >= n:
            ask()
        if r.rand() < 0.01:
            _, why = attempt(m.reset)
            told = False
            rec.ev("reset", raised=why, at=at)
            ask()


def params(kind, r, **over):
    p = {"kind": kind, "style": ["sk", "mf"][r.randint(2)], "C": int(r.randint(3, 7)), "K": int(r.randint(2, 5)), "win": int(r.randint(6, 24)), "n": int(r.randint(1, 6)),
         "kept": 0, "folds": int(r.randint(2, 5)), "fresh": False, "slope": "0.5", "cross": int(r.choice([0, 2, 10])), "prune": ["none", "age", "error"][r.randint(3)],
         "nens": int(r.randint(1, 5)), "thr": "0.5"}
    p["kept"] = int(p["n"] + r.randint(0, 3))
    p["slope"] = ["0.5", "1.5", "0.1"][r.randint(3)]
    if kind == "lpp":
        p["win"] = [22, 26, 35, 31][r.randint(4)]
        p["K"] = int(r.randint(2, 4))
        p["thr"] = ["0.5", "0.6"][r.randint(2)]
    p.update(over)
    return p


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 19 + 25)
    for j in range(ctx.n(16, 120)):
        for kind in ("bi", "awe", "nse", "lpp"):
            p = params(kind, r, **({"style": "sk"} if j % 3 == 1 else {}), **({"n": 4, "K": 3, "kept": 5} if kind == "awe" and j % 4 == 2 else {}))
            labels = list(range(p["K"]))
            if p["style"] == "sk" and j % 3 == 1:
                labels = [v * 2 + 1 for v in labels] if kind != "bi" else [v * 2 for v in labels]
            yield Scenario("ChunksTrace", "%s-%s-%d" % (kind, p["style"], j), run, p=p, seed=ctx.seed * 1000 + j, labels=labels, n=ctx.n(220, 500),
                           weighted=kind in ("bi", "awe") and j % 2 == 1, noise=[0.02, 0.15, 0.3][j % 3] if kind != "lpp" else [0.02, 0.1, 0.2][j % 3] if p["kept"] != 5 else 0.5, span=[40, 90][r.randint(2)])
    for j in range(4):
        yield Scenario("ChunksTrace", "kf-awe-%d" % j, run, kf="F12", p=params("awe", r, style="mf", fresh=True, folds=4, n=2, kept=2, K=3), seed=ctx.seed * 1000 + j,
                       labels=[0, 1, 2], n=300, weighted=False, noise=0.3, span=30)
