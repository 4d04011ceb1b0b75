"""C01: finite streams deliver every row exactly once, in order."""
import os
import tempfile

import numpy as np
import pandas as pd

from rec import Scenario, enci, enc

BASE = np.datetime64("2020-01-01T00:00:00")


def t2i(a):
    """datetime64 or plain ints -> ints"""
    a = np.asarray(a)
    if np.issubdtype(a.dtype, np.datetime64):
        return [int(v) for v in (a.astype("datetime64[s]") - BASE).astype(int)]
    return [int(v) for v in a]


def enc_side(s):
    if s is None:
        return "None"
    a = np.asarray(s)
    if np.issubdtype(a.dtype, np.datetime64):
        return t2i(a)
    return enci(a)


def make_rows(n, nf, nt, seed, classif=True, floats=False):
    r = np.random.RandomState(seed)
    rows = r.randint(0, 50, size=(n, nf + nt)).astype(float if floats else int)
    rows[:, 0] = np.arange(n) + 100        # a row identity
    lab = r.randint(0, 3, size=(n, nt)) * 2 + 1
    return rows, lab


def build(kind, n, seed, nt, tidx, nf=3):
    """-> (stream, cfg, factory for fresh equal streams)"""
    from skmultiflow import data as D
    rows, lab = make_rows(n, nf, nt, seed)
    ncol = nf + nt
    tlo = tidx if tidx >= 0 else ncol + tidx
    full = rows.copy()
    full[:, tlo:tlo + nt] = lab
    names = ["c%d" % k for k in range(ncol)]
    tn = names[tlo:tlo + nt]
    fn = [x for x in names if x not in tn]
    side = []
    classif = True
    if kind == "np":
        mk = lambda: D.DataStream(full.copy(), target_idx=tidx, n_targets=nt)
        fn, tn = [int(x[1:]) for x in fn], [int(x[1:]) for x in tn]
    elif kind == "df":
        mk = lambda: D.DataStream(pd.DataFrame(full, columns=names), target_idx=tidx, n_targets=nt)
    elif kind == "dfidx":        # a frame whose index is not 0..n-1
        idx = np.arange(n)[::-1] * 7
        mk = lambda: D.DataStream(pd.DataFrame(full, columns=names, index=idx), target_idx=tidx, n_targets=nt)
    elif kind == "float":
        full = full + 0.0
        full[:, tlo:tlo + nt] += 0.5
        classif = False
        mk = lambda: D.DataStream(pd.DataFrame(full, columns=names), target_idx=tidx, n_targets=nt)
    elif kind == "Xy":
        X = np.delete(full, list(range(tlo, tlo + nt)), axis=1)
        Y = full[:, tlo:tlo + nt]
        mk = lambda: D.DataStream(X.copy(), Y.copy())
        fn, tn = list(range(nf)), list(range(nt))
    elif kind == "Xydf":
        X = pd.DataFrame(np.delete(full, list(range(tlo, tlo + nt)), axis=1), columns=fn)
        Y = pd.DataFrame(full[:, tlo:tlo + nt], columns=tn)
        mk = lambda: D.DataStream(X.copy(), Y.copy())
    elif kind == "file":
        d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        p = os.path.join(d, "s.csv")
        pd.DataFrame(full, columns=names).to_csv(p, index=False)
        mk = lambda: D.FileStream(p, target_idx=tidx, n_targets=nt)
    elif kind.startswith("temporal"):
        r = np.random.RandomState(seed + 5)
        X = np.delete(full, list(range(tlo, tlo + nt)), axis=1)
        Y = full[:, tlo:tlo + nt]
        if nt == 1:
            Y = Y.ravel()
        time = BASE + np.cumsum(r.randint(1, 9, size=n)).astype("timedelta64[s]")
        dl = time + r.randint(0, 30, size=n).astype("timedelta64[s]")
        w = r.randint(1, 6, size=n)
        perm = r.permutation(n)
        fn, tn = list(range(nf)), list(range(nt))
        if kind == "temporal-int":
            mk = lambda: D.TemporalDataStream(X.copy(), Y.copy(), sample_delay=2, sample_weight=w.copy())
            side = [list(range(n)), [k + 2 for k in range(n)], enci(w)]
        elif kind == "temporal-td":
            mk = lambda: D.TemporalDataStream(X.copy(), Y.copy(), time=time.copy(),
                                              sample_delay=np.timedelta64(5, "s"))
            side = [t2i(time), [v + 5 for v in t2i(time)]]
        elif kind == "temporal-arr":
            mk = lambda: D.TemporalDataStream(X.copy(), Y.copy(), time=pd.Series(time),
                                              sample_delay=pd.Series(dl), sample_weight=w.copy())
            side = [t2i(time), t2i(dl), enci(w)]
        elif kind == "temporal-unordered":
            mk = lambda: D.TemporalDataStream(X[perm].copy(), Y[perm].copy(), time=time[perm].copy(),
                                              sample_delay=dl[perm].copy(), sample_weight=w[perm].copy(),
                                              ordered=False)
            side = [t2i(time), t2i(dl), enci(w)]
        elif kind == "temporal-unordered-df":
            mk = lambda: D.TemporalDataStream(pd.DataFrame(full[perm], columns=names), time=time[perm].copy(),
                                              sample_delay=dl[perm].copy(), sample_weight=w[perm].copy(),
                                              target_idx=tidx, n_targets=nt, ordered=False)
            fn = [x for x in names if x not in names[tlo:tlo + nt]]
            tn = names[tlo:tlo + nt]
            side = [t2i(time), t2i(dl), enci(w)]
        elif kind == "temporal-df":
            mk = lambda: D.TemporalDataStream(pd.DataFrame(full, columns=names), time=time.copy(),
                                              sample_delay=dl.copy(), target_idx=tidx, n_targets=nt)
            fn = [x for x in names if x not in names[tlo:tlo + nt]]
            tn = names[tlo:tlo + nt]
            side = [t2i(time), t2i(dl)]
    elif kind in ("anomaly", "anomaly-ctx", "multilabel", "regression"):
        if kind == "anomaly":
            mk = lambda: D.AnomalySineGenerator(n_samples=n, n_anomalies=max(1, n // 3), random_state=seed)
            nt, nf = 1, 2
            names = ["att_idx_0", "att_idx_1", "anomaly"]
        elif kind == "anomaly-ctx":
            mk = lambda: D.AnomalySineGenerator(n_samples=n, n_anomalies=max(1, n // 3), contextual=True,
                                                n_contextual=max(1, n // 3), shift=1, random_state=seed)
            nt, nf = 1, 2
            names = ["att_idx_0", "att_idx_1", "anomaly"]
        elif kind == "multilabel":
            mk = lambda: D.MultilabelGenerator(n_samples=n, n_features=nf, n_targets=nt, n_labels=1, random_state=seed)
            names = ["att_num_%d" % k for k in range(nf)] + ["target_%d" % k for k in range(nt)]
        else:
            mk = lambda: D.RegressionGenerator(n_samples=n, n_features=nf, n_informative=2, n_targets=nt, random_state=seed)
            names = ["att_num_%d" % k for k in range(nf)] + ["target_%d" % k for k in range(nt)]
            classif = False
        if kind.startswith("anomaly"):
            classif = False
        tw = mk()
        X, Y = tw.next_sample(n)          # one batch from an equal twin
        full = np.column_stack([X, Y])
        tlo = nf
        fn, tn = names[:nf], names[nf:]
    s = mk()
    cfg = {"rows": enci(full), "tlo": tlo + 1, "nt": nt, "side": side, "classif": classif,
           "names": [enc(fn), enc(tn)]}
    if kind == "multilabel" or kind == "regression" or kind.startswith("anomaly"):
        cfg["classif"] = False
    return s, cfg


def obs(s, kind):
    last = s.last_sample()
    out = [enci(last[0]), enci(last[1])] + [enc_side(v) for v in last[2:]]
    return dict(has=enc(s.has_more_samples()), rem=enc(s.n_remaining_samples()), last=out)


def trim(cfg, side):
    return side[:len(cfg["side"])] if len(cfg["side"]) < 3 and len(side) > len(cfg["side"]) and \
        all(v == "None" for v in side[len(cfg["side"]):]) else side


def play(rec, kind, n, seed, nt, tidx, ops):
    s, cfg = build(kind, n, seed, nt, tidx)
    rec.cfg = cfg
    o = obs(s, kind)

    def fix(o):
        if o["last"][0] != "None":
            o["last"] = o["last"][:2] + trim(cfg, o["last"][2:])
        return o
    rec.evs.append(dict(op="peek", **fix(o)))
    rec.evs.append(dict(op="meta", n_features=enc(s.n_features), n_targets=enc(s.n_targets),
                        n_classes=enc(s.n_classes), names=[enc(s.feature_names), enc(s.target_names)],
                        target_values=enci(s.target_values) if cfg["classif"] else 0))
    for op in ops:
        if op["op"] == "next":
            b = s.next_sample(op["b"]) if op["b"] != 1 or seed % 2 else s.next_sample()
            rec.hold(*[v for v in b[:2] if v is not None])
            e = dict(op="next", b=op["b"], x=enci(b[0]), y=enci(b[1]),
                     side=trim(cfg, [enc_side(v) for v in b[2:]]))
        elif op["op"] == "restart":
            s.restart()
            e = dict(op="restart")
        else:
            e = dict(op="peek")
        e.update(fix(obs(s, kind)))
        rec.evs.append(e)


KINDS = [("np", 1, -1), ("np", 2, -2), ("np", 1, 0), ("np", 1, 1), ("np", 2, 1), ("df", 1, -1), ("df", 2, 0),
         ("df", 2, -3), ("dfidx", 1, -1), ("float", 1, -1), ("float", 2, -2), ("Xy", 1, -1), ("Xy", 3, -3),
         ("Xydf", 1, -1), ("Xydf", 2, -2),
         ("file", 1, -1), ("file", 2, -2), ("file", 1, 1), ("file", 2, 1), ("file", 1, 0),
         ("temporal-int", 1, -1), ("temporal-int", 2, -2), ("temporal-td", 1, -1), ("temporal-arr", 1, -1),
         ("temporal-unordered", 1, -1), ("temporal-unordered", 2, -2), ("temporal-df", 1, -1),
         ("temporal-df", 1, 1), ("temporal-unordered-df", 1, -1), ("temporal-unordered-df", 2, 0),
         ("anomaly", 1, -1), ("anomaly-ctx", 1, -1), ("multilabel", 2, -2), ("multilabel", 3, -3),
         ("regression", 1, -1), ("regression", 2, -2)]


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed)
    behs = ctx.beh["ops"]
    full = {("np", 1, -1), ("file", 1, -1), ("temporal-int", 1, -1), ("regression", 1, -1)}
    for kind, nt, tidx in KINDS:
        take = range(len(behs)) if (kind, nt, tidx) in full or ctx.thorough else \
            r.choice(len(behs), 60, replace=False)
        for k in take:
            yield Scenario("FiniteStreamTrace", "%s/%d/%d/gen%d" % (kind, nt, tidx, k), play,
                           kind=kind, n=4, seed=int(k), nt=nt, tidx=tidx, ops=behs[k])
        for k in range(ctx.n(4, 40)):
            n = int(r.randint(5, 40))
            ops = []
            for _ in range(int(r.randint(5, 25))):
                q = r.rand()
                ops.append({"op": "next", "b": int(r.choice([1, 1, 2, 3, 5, 8, n, n + 3]))} if q < .8 else
                           {"op": "restart"} if q < .9 else {"op": "peek"})
            yield Scenario("FiniteStreamTrace", "%s/%d/%d/rnd%d" % (kind, nt, tidx, k), play,
                           kind=kind, n=n, seed=int(r.randint(10000)), nt=nt, tidx=tidx, ops=ops)
