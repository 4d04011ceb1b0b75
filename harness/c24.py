"""C24: online bagging and boosting against spec/Bagging.tla; the members keep a journal of what is done to them."""
import numpy as np

from rec import Scenario, attempt


class Journal:
    def __init__(self):
        self.n, self.log = 0, []


class Member:
    """counts what it is taught, per code (first attribute) and label, and answers with these counts"""
    _estimator_type = "classifier"

    def __init__(self, k, codes, journal):
        self.k, self.codes, self.journal = k, codes, journal
        self.no, self.cnt = 0, {}

    def __deepcopy__(self, memo):
        m = Member(self.k, self.codes, self.journal)
        m.cnt = {c: list(v) for c, v in self.cnt.items()}
        self.journal.n += 1
        m.no = self.journal.n
        self.journal.log.append(("copy", m.no))
        return m

    def reset(self):
        self.cnt = {}
        self.journal.log.append(("reset", self.no))
        return self

    def code(self, x):
        return int(abs(np.floor(x[0] + 1e-9))) % self.codes

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        for j in range(len(X)):
            w = 1 if sample_weight is None else sample_weight[j]
            x = [float(v) for v in X[j]]
            self.cnt.setdefault(self.code(x), [0] * self.k)[int(y[j])] += w
            self.journal.log.append(("fit", self.no, x, int(y[j]), w, None if classes is None else sorted(int(c) for c in classes)))
        return self

    def predict(self, X):
        return np.array([int(np.argmax(self.cnt.get(self.code(x), [0]))) for x in X])

    def predict_proba(self, X):
        if not self.cnt:
            return np.zeros((len(X), 1))
        out = np.zeros((len(X), self.k))
        for j, x in enumerate(X):
            v = np.array(self.cnt.get(self.code(x), [0] * self.k), dtype=float)
            if v.sum() > 0:
                out[j] = v / v.sum()
        return out

    def get_params(self, deep=True):
        return {"k": self.k, "codes": self.codes, "journal": self.journal}

    def get_info(self):
        return "Member"


ADW = {"maxb": 5, "clock": 32, "minwin": 10, "minlen": 5, "delta": "0.002", "exactvar": False, "fullscan": False}
ALGS = ["leveraging_bag", "leveraging_bag_me", "leveraging_bag_half", "leveraging_bag_wt", "leveraging_subag"]


def make(p, base, seed):
    from skmultiflow import meta as M
    kw = dict(base_estimator=base, n_estimators=p["n0"], random_state=seed)
    kind, drift = p["kind"], p["watch"] != "none"
    if kind == "oza":
        return M.OzaBaggingClassifier(**kw)
    if kind == "ozaadwin":
        return M.OzaBaggingADWINClassifier(**kw)
    if kind == "lev":
        return M.LeveragingBaggingClassifier(w=p["w"], delta=float(p["ad"]["delta"]), enable_code_matrix=p["coded"], leverage_algorithm=ALGS[p["alg"] - 1], **kw)
    kw["drift_detection"] = drift
    if kind == "boost":
        return M.OnlineBoostingClassifier(**kw)
    if kind == "adac2":
        return M.OnlineAdaC2Classifier(cost_positive=float(p["cp"]), cost_negative=float(p["cn"]), **kw)
    if kind == "csb2":
        return M.OnlineCSB2Classifier(cost_positive=float(p["cp"]), cost_negative=float(p["cn"]), **kw)
    if kind == "rus":
        return M.OnlineRUSBoostClassifier(sampling_rate=p["rate"], algorithm=p["alg"], **kw)
    if kind == "uob":
        return M.OnlineUnderOverBaggingClassifier(sampling_rate=p["rate"], **kw)
    return M.OnlineSMOTEBaggingClassifier(sampling_rate=p["rate"], **kw)


def run(rec, p, seed, n, weighted, noise, span, calm=False):
    """calm: the concept stays, noisy and clean spans alternate (otherwise the labels shift)"""
    r = np.random.RandomState(seed)
    jr = Journal()
    m = make(p, Member(2 if p["coded"] else p["K"], p["C"], jr), seed)
    rec.cfg = {"p": p}
    born = 0                                 # copies made before the members of the present ensemble

    def ask():
        codes = [int(v) for v in r.permutation(p["C"])[:r.randint(1, p["C"] + 1)]]
        X = np.column_stack([codes, np.zeros(len(codes)), r.rand(len(codes))])
        pr, why = attempt(m.predict_proba, X)
        assert not why, why
        rec.ev("ask", codes=codes, proba=np.asarray(pr, dtype=float), pred=[int(v) for v in m.predict(X)])

    ask()
    at, shift, next_shift = 0, 0, span
    told = False
    while at < n:
        b = 1 if p["kind"] == "smote" else int(min(n - at, r.choice([1, 1, 2, 4, 9])))
        if at >= next_shift:
            shift, next_shift = shift + 1, at + span
        codes = r.randint(p["C"], size=b)
        ys = (codes + (0 if calm else shift)) % p["K"]
        ys = np.where(r.rand(b) < (0.95 if calm and shift % 2 == 0 else noise), r.randint(p["K"], size=b), ys)
        if p["kind"] in ("uob", "smote", "rus", "adac2", "csb2") and not calm:
            ys = np.where((ys == 1) & (r.rand(b) < 0.3), 0, ys)
        ids = at + 1 + np.arange(b)
        X = np.column_stack([codes, ids, np.round(r.rand(b), 4)]).astype(float)
        now = weighted and r.rand() < 0.7
        ws = r.randint(1, 4, b) if now else np.ones(b, dtype=int)
        kw = {"sample_weight": ws} if now else {}
        if not told or r.rand() < 0.3:
            kw["classes"] = list(range(p["K"]))
            told = True
        del jr.log[:]
        if at == 0:
            born = jr.n
            # members made at construction count too
            born -= born if p["kind"] in ("oza", "ozaadwin", "lev") else 0
        rec.hold(X, ys)
        _, why = attempt(m.partial_fit, X, ys, **kw)
        taught = [[{} for _ in range(p["n"])] for _ in range(b)]
        syn = [[[] for _ in range(p["n"])] for _ in range(b)]
        resets, odd, last = [], "", 0
        seen = []
        for e in jr.log:
            if e[0] == "copy":
                continue
            pos = e[1] - born
            if e[1] == 0:
                continue
            if not 1 <= pos <= p["n"]:
                odd = odd or "something else than the members is trained or reset"
                continue
            if e[0] == "reset":
                resets.append({"m": pos, "lo": last, "hi": None})
                continue
            x = e[2]
            j = int(x[1]) - at if x[1] == int(x[1]) else 0
            if not 1 <= j <= b or not np.array_equal(X[j - 1], x):
                if p["kind"] == "smote" and e[3] == 1:
                    syn[0][pos - 1].append({"x": x, "code": m.base_estimator.code(x)})
                    continue
                odd = odd or "a member is trained with a row that was not given"
                continue
            last = max(last, j) if p["kind"] != "ozaadwin" else 0
            for q in resets:
                q["hi"] = min(q["hi"] or b + 1, j)
            key = (e[3], int(e[4]), tuple(e[5] or ()))
            d = taught[j - 1][pos - 1]
            d[key] = d.get(key, 0) + 1
        for q in resets:
            q["hi"] = q["hi"] or b + 1
        ev = dict(codes=[int(c) for c in codes], ys=[int(v) for v in ys], ws=[int(v) for v in ws], raised=why, odd=odd, resets=resets,
                  taught=[[[{"y": k[0], "w": k[1], "cls": list(k[2]), "n": c} for k, c in d.items()] for d in row] for row in taught])
        if p["kind"] == "smote":
            ev["syn"] = syn
            ev["X"] = [[repr(float(v)) for v in x] for x in X]
        rec.ev("fit", **ev)
        if why:
            return
        at += b
        if r.rand() < 0.25 or at >= n or at < 12:
            ask()
        if r.rand() < 0.004:
            del jr.log[:]
            _, why = attempt(m.reset)
            copies = [e[1] for e in jr.log if e[0] == "copy"]
            born = copies[0] - 1 if copies else jr.n
            told = False
            rec.ev("reset", raised=why)
            ask()


def params(kind, r, **over):
    p = {"kind": kind, "n0": int(r.randint(1, 5)), "K": 2, "C": int(r.randint(3, 7)), "watch": "err", "ad": ADW, "alg": 1, "w": 6, "rate": int(r.randint(1, 4)),
         "cp": "1.0", "cn": "1.0", "coded": False, "near": False}
    if kind in ("oza", "ozaadwin", "lev", "boost"):
        p["K"] = int(r.randint(2, 5))
    if kind == "oza":
        p["watch"] = "none"
    if kind in ("adac2", "csb2"):
        p["cp"], p["cn"] = "1.0", ["0.1", "0.5", "0.9"][r.randint(3)]
    if kind in ("csb2", "rus"):
        p["watch"] = "acc"                  # known finding F10
    if kind == "rus":
        p["alg"] = int(r.randint(1, 4))
    if kind in ("boost", "adac2", "csb2", "rus", "uob", "smote") and r.rand() < 0.2:
        p["watch"] = "none"
    if kind == "lev":
        p["ad"] = dict(ADW, delta=["0.002", "0.05", "0.3"][r.randint(3)])
        p["w"] = int(r.choice([1, 3, 6]))
    p.update(over)
    if p["coded"]:
        p["w"] = 6
    p["n"] = p["n0"] if kind == "lev" else max(p["n0"], p["K"])
    return p


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 17 + 24)
    n = ctx.n(400, 1200)
    for j in range(ctx.n(6, 60)):
        for kind in ("oza", "ozaadwin", "boost", "adac2", "csb2", "rus", "uob", "smote"):
            yield Scenario("BaggingTrace", "%s-%d" % (kind, j), run, p=params(kind, r), seed=ctx.seed * 1000 + j, n=n if j % 2 else max(n, 700), weighted=j % 3 == 2,
                           noise=[0.02, 0.1, 0.25][j % 3], span=[70, 130, 200][r.randint(3)] if j % 2 else 270, calm=j % 2 == (1 if kind not in ("csb2", "rus") else 0))
        for alg in range(1, 6):
            yield Scenario("BaggingTrace", "lev%d-%d" % (alg, j), run, p=params("lev", r, alg=alg), seed=ctx.seed * 1000 + j, n=n, weighted=j % 3 == 2,
                           noise=[0.02, 0.1, 0.25][j % 3], span=[70, 130, 200][r.randint(3)])
        yield Scenario("BaggingTrace", "code-%d" % j, run, p=params("lev", r, coded=True, n0=int(r.randint(2, 6))), seed=ctx.seed * 1000 + j, n=n, weighted=False,
                       noise=[0.02, 0.1, 0.25][j % 3], span=[70, 130, 200][r.randint(3)])
    for kind in ("csb2", "rus"):
        for j in range(ctx.n(3, 20)):
            yield Scenario("BaggingTrace", "calm-%s-%d" % (kind, j), run, p=params(kind, r, watch="acc", n0=4, rate=1), seed=ctx.seed * 1000 + 77 + j, n=700, weighted=False,
                           noise=0.02, span=270, calm=True)
        for j in range(3):
            yield Scenario("BaggingTrace", "kf-%s-%d" % (kind, j), run, kf="F10", p=params(kind, r, watch="err", alg=1), seed=ctx.seed * 1000 + j, n=400, weighted=False,
                           noise=0.02, span=70)
    yield Scenario("BaggingTrace", "kf-smote", run, kf="F11", p=params("smote", r, near=True, rate=3, n0=3), seed=ctx.seed * 1000, n=100, weighted=False, noise=0.1, span=100)
