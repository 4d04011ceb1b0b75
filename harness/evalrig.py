"""Instrumented streams and models for the evaluators (C05-C08): one ordered log
of every read, prediction and training step, rows identified by feature 0."""
import os
import tempfile

import numpy as np

from rec import enci

CLS = ["accuracy", "kappa", "kappa_t", "kappa_m", "f1", "precision", "recall", "gmean"]
LAB = ["hamming_score", "hamming_loss", "exact_match", "j_index"]
REG = ["mean_square_error", "mean_absolute_error"]
MREG = ["average_mean_square_error", "average_mean_absolute_error", "average_root_mean_square_error"]
HEAD = {"accuracy": "acc", "mean_square_error": "mse", "mean_absolute_error": "mae", "average_mean_square_error": "amse",
        "average_mean_absolute_error": "amae", "average_root_mean_square_error": "armse"}
KIND = {"class": CLS, "label": LAB, "reg": REG, "mreg": MREG}


def ids_of(X):
    return [int(v) for v in np.asarray(X)[:, 0]] if X is not None and len(X) else []


def make_y(kind, n, r, nc=3, L=3):
    if kind == "class":
        return r.randint(0, nc, n)
    if kind == "label":
        return (r.rand(n, L) < 0.5).astype(int)
    if kind == "reg":
        return np.round(r.randn(n) * 4, 3) + 0.0005
    return np.round(r.randn(n, 2) * 4, 3) + 0.0005


def model_class():
    from skmultiflow.core import BaseSKMObject

    class M(BaseSKMObject):
        def __init__(self, m=1, kind="class", log=None, L=3):
            super().__init__()
            self.m, self.kind, self.log, self.L = m, kind, log, L
            self.fits = 0
            self.seen = 0

        def predict(self, X):
            ids = ids_of(X)
            out = []
            for i in ids:
                h = (i * 2654435761 + self.m * 40503 + self.seen * 97) % 1000003
                if self.kind == "class":
                    out.append(h % 3 if h % 5 else 3)
                elif self.kind == "label":
                    out.append([(h >> k) & 1 for k in range(self.L)])
                elif self.kind == "reg":
                    out.append((h % 997) / 64.0)
                else:
                    out.append([(h % 997) / 64.0, (h % 89) / 16.0])
            self.log.append(("predict", self.m, ids, out))
            return np.array(out)

        def partial_fit(self, X, y, classes=None, sample_weight=None):
            ids = ids_of(X)
            self.fits += 1
            self.seen += len(ids)
            self.log.append(("fit", self.m, ids, enci(np.asarray(y)),
                             "None" if classes is None else enci(np.asarray(classes)),
                             "None" if sample_weight is None else enci(np.asarray(sample_weight))))
            return self

        fit = partial_fit

        def get_info(self):
            return "M"
    return M


def stream_class(base):
    class S(base):
        def next_sample(self, batch_size=1):
            res = base.next_sample(self, batch_size)
            if getattr(self, "vlog", None) is not None:
                self.vlog.append(("next", batch_size, len(res[0]) if res[0] is not None else 0))
            return res

        def restart(self):
            res = base.restart(self)
            if getattr(self, "vlog", None) is not None:
                self.vlog.append(("restart",))
            return res

        def get_info(self):
            return "S"
    return S


def endless(X, y, log):
    """An endless stream cycling over labels but never repeating a row id."""
    from skmultiflow.data.base_stream import Stream

    class E(Stream):
        def __init__(self):
            super().__init__()
            self.n_features, self.n_num_features, self.n_samples = 2, 2, 0
            self.n_targets = 1 if y.ndim == 1 else y.shape[1]
            self.n_classes = len(np.unique(y))
            self.name, self.k = "endless", 0
            self.target_values = np.unique(y).tolist() if y.ndim == 1 else [[0, 1]] * y.shape[1]
            self.feature_names, self.target_names = ["a", "b"], ["t"]
            self.vlog = None

        def _prepare_for_use(self):
            pass

        def has_more_samples(self):
            return True

        def n_remaining_samples(self):
            return -1

        def next_sample(self, batch_size=1):
            X0 = X[self.k:self.k + batch_size]
            y0 = y[self.k:self.k + batch_size]
            self.k += batch_size
            self.current_sample_x, self.current_sample_y = X0, y0
            if self.vlog is not None:
                self.vlog.append(("next", batch_size, batch_size))
            return X0, y0

        def restart(self):
            self.k = 0
            if self.vlog is not None:
                self.vlog.append(("restart",))

        def get_info(self):
            return "E"
    return E()


def run(method, kind, n, seed, models, batch, pre=0, wait=20, limit=10 ** 6, test=10, dynamic=False, restart=True,
        skip=0, inf=False, avail=None, arr=None, weights=None, tvp=False, delay=None, classif_cat=True, twice=False):
    """Runs one evaluation; returns a dict with the log and everything known about it."""
    from skmultiflow import evaluation as E
    from skmultiflow.data import DataStream, TemporalDataStream
    r = np.random.RandomState(seed)
    total = n
    y = make_y(kind, n + (400 if inf else 0), r)
    X = np.column_stack([np.arange(1, len(y) + 1), r.rand(len(y))]).astype(float)
    log = []
    M = model_class()
    ms = [M(m + 1, kind, log) for m in range(models)]
    w = None
    if weights:
        w = r.choice([0.5, 1.0, 2.0, 3.0], n)
    if inf:
        s = endless(X, y, log)
    elif method == "delayed":
        S = stream_class(TemporalDataStream)
        kw = dict(time=arr, sample_delay=avail) if delay is None else dict(sample_delay=delay)
        s = S(X, y, sample_weight=w, name="S", **kw)
    else:
        S = stream_class(DataStream)
        s = S(X, y, name="S")
    if skip:
        s.next_sample(skip)
    s.vlog = log
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    out = os.path.join(d, "out.csv")
    metrics = list(KIND[kind])
    if tvp:
        metrics = metrics[:2] + ["true_vs_predicted"] + metrics[2:]
    common = dict(n_wait=wait, max_samples=limit, batch_size=batch, output_file=out, metrics=list(metrics),
                  restart_stream=restart, show_plot=False)
    if method == "preq":
        ev = E.EvaluatePrequential(pretrain_size=pre, **common)
    elif method == "delayed":
        ev = E.EvaluatePrequentialDelayed(pretrain_size=pre, **common)
    else:
        ev = E.EvaluateHoldout(test_size=test, dynamic_test_set=dynamic, **common)
    names = ["alpha", "b_%d" % seed, "c"][:models] if seed % 2 else None
    if twice:            # a second evaluation with the same evaluator starts afresh
        ev.evaluate(s, ms if models > 1 else ms[0], model_names=names)
        s.restart()
        del log[:]
        for m in ms:
            m.fits = m.seen = 0
    got = ev.evaluate(s, ms if models > 1 else ms[0], model_names=names)
    same = isinstance(got, list) and len(got) == models and all(a is b for a, b in zip(got, ms))
    names = names or ["M%d" % k for k in range(models)]
    lines = [l for l in open(out).read().splitlines() if l and not l.startswith("#")]
    hdr, rows = lines[0].split(","), [l.split(",") for l in lines[1:]]
    return dict(method=method, kind=kind, log=log, y=y[skip:], skip=skip, total=total, rows_left=-1 if inf else n - skip,
                models=models, batch=batch, pre=pre, wait=wait, limit=limit, test=test, dynamic=dynamic, restart=restart,
                same=same, rem=s.n_remaining_samples(), ev=ev, hdr=hdr, filerows=rows, names=names, metrics=KIND[kind],
                tvp=tvp, w=w, classes=enci(np.unique(y)) if kind in ("class", "label") else [],
                arr=arr, avail=avail, delay=delay, ms=ms, res=results(method, log, y, models, kind))


def results(method, log, y, models, kind):
    """per model, the (true, predicted) pairs in the order in which their labels are used"""
    pend = [dict() for _ in range(models)]
    res = [[] for _ in range(models)]
    groups = []
    L = lambda i: enci(y[i - 1])
    ntrain = 0
    for e in log:
        if e[0] == "predict":
            _, m, ids, out = e
            if method == "delayed":
                pend[m - 1].update({i: enci(p) for i, p in zip(ids, out)})
            else:
                res[m - 1] += [[L(i), enci(p)] for i, p in zip(ids, out)]
        elif e[0] == "fit" and method == "delayed":
            _, m, ids = e[:3]
            g = [[L(i), pend[m - 1].pop(i)] for i in ids if i in pend[m - 1]]
            res[m - 1] += g
    return res


def order_trace(rec, R):
    """events for PrequentialTrace / HoldoutTrace / DelayedTrace"""
    k = R["skip"]
    rec.cfg = {"models": R["models"], "batch": R["batch"], "pre": R["pre"], "limit": R["limit"], "rows": R["rows_left"],
               "test": R["test"], "wait": R["wait"], "dynamic": R["dynamic"], "restart": R["restart"], "total": R["total"],
               "y": enci(R["y"]), "classes": R["classes"], "w": [] if R["w"] is None else enci(R["w"])}
    if R["method"] == "delayed":
        n = R["total"]
        if R["delay"] is not None:
            rec.cfg["arr"], rec.cfg["avail"] = list(range(n)), [i + R["delay"] for i in range(n)]
        else:
            sec = lambda a: [int(v) for v in (a - np.datetime64("2020-01-01T00:00:00")).astype("timedelta64[s]").astype(int)]
            rec.cfg["arr"], rec.cfg["avail"] = sec(R["arr"]), sec(R["avail"])
    for e in R["log"]:
        if e[0] == "next":
            rec.ev("next", b=e[1])
        elif e[0] == "predict":
            rec.ev("predict", m=e[1], ids=[i - k for i in e[2]])
        elif e[0] == "fit":
            rec.ev("fit", m=e[1], ids=[i - k for i in e[2]], y=e[3], classes=e[4], w=e[5])
        else:
            rec.ev("restart")
    rec.ev("end", rem=R["rem"], same=R["same"])


def report_trace(rec, R):
    mets = R["metrics"]
    n = R["rows_left"]
    rec.cfg = {"method": R["method"], "kind": R["kind"], "models": R["models"], "batch": R["batch"],
               "pre": R["pre"] if R["method"] != "holdout" else 0, "wait": R["wait"], "limit": R["limit"],
               "budget": R["limit"] if n == -1 or n > R["limit"] else n,
               "W": R["test"] if R["method"] == "holdout" else R["wait"], "L": 3, "metrics": mets, "tvp": R["tvp"],
               "res": R["res"]}
    # what was read and how many results came in, in order (model 1)
    first = True
    for e in R["log"]:
        if e[0] == "next":
            if R["method"] == "holdout":
                rec.ev("read", b=e[1] if not (R["dynamic"] and e[1] == R["test"]) else e[2])
            elif R["method"] == "preq" and not (first and R["pre"] > 0):
                rec.ev("read", b=e[1])
            first = False
        elif e[0] == "predict" and e[1] == 1 and R["method"] != "delayed":
            rec.ev("results", n=len(e[2]))
        elif e[0] == "fit" and e[1] == 1 and R["method"] == "delayed" and not (R["pre"] and e[2] and e[2][0] == 1 + R["skip"]
                                                                              and len(e[2]) == R["pre"]):
            rec.ev("results", n=len(e[2]))
    if R["method"] == "delayed":
        rec.ev("over")
    col = {h: k for k, h in enumerate(R["hdr"])}
    f = lambda s: s if s not in ("nan", "inf", "-inf") else s
    for row in R["filerows"]:
        v = [[[f(row[col["%s_%s_[%s]" % (w, HEAD.get(m, m), nm)]]) for w in ("mean", "current")] for nm in R["names"]]
             for m in mets]
        kw = {}
        if R["tvp"]:
            kw = dict(tv=row[col["true_value"]], pv=[row[col["predicted_value_[%s]" % nm]] for nm in R["names"]])
        rec.evi("row", id=int(row[0]), v=v, **kw)
    get = {"accuracy": "accuracy_score", "kappa": "kappa_score", "kappa_t": "kappa_t_score", "kappa_m": "kappa_m_score",
           "f1": "f1_score", "precision": "precision_score", "recall": "recall_score", "gmean": "geometric_mean_score",
           "hamming_score": "hamming_score", "hamming_loss": "hamming_loss_score", "exact_match": "exact_match_score",
           "j_index": "jaccard_score", "mean_square_error": "get_mean_square_error", "mean_absolute_error": "get_average_error",
           "average_mean_square_error": "get_average_mean_square_error",
           "average_mean_absolute_error": "get_average_absolute_error",
           "average_root_mean_square_error": "get_average_root_mean_square_error"}
    fin = []
    for m in mets:
        fin.append([[getattr(R["ev"].get_mean_measurements(k), get[m])(), getattr(R["ev"].get_current_measurements(k), get[m])()]
                    for k in range(R["models"])])
    rec.ev("final", v=fin)
