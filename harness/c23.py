"""C23: HoeffdingTreeClassifier against spec/Hoeffding.tla."""
import re

import numpy as np

from classdata import Source, coded
from rec import Scenario, attempt


def rules_of(m, kinds):
    """the rules as (path, class weights, class)"""
    out = []
    for q in m.get_model_rules():
        path = [[int(z.att_idx) + 1, "=" if z.operator == "==" else z.operator, int(z.value) if kinds[int(z.att_idx)] else repr(float(z.value))]
                for z in q.predicate_set]
        n = q.observed_class_distribution
        out.append({"path": path, "cs": [int(c) for c in n], "ws": [repr(float(v)) for v in n.values()], "class": int(q.class_idx)})
    return out


def described(text, kinds):
    out, stack = [], []
    for line in text.splitlines():
        depth = (len(line) - len(line.lstrip())) // 2
        stack = stack[:depth]
        g = re.match(r"\s*if Attribute (\d+) (\S+) (\S+):$", line)
        if g:
            a, op, v = int(g.group(1)), g.group(2), float(g.group(3))
            stack.append([a + 1, op, int(v) if kinds[a] else repr(v)])
            continue
        g = re.match(r"\s*Leaf = Class (\S+) \| \{(.*)\}$", line)
        assert g, "a line of the description cannot be read: " + line
        n = [t.split(":") for t in g.group(2).split(",") if t]
        out.append({"path": list(stack), "cs": [int(c) for c, _ in n], "ws": [repr(float(v)) for _, v in n], "class": int(g.group(1))})
    return out


def run(rec, kinds, k, p, style, seed, n, classes, noise, gap=1):
    from skmultiflow.trees import HoeffdingTreeClassifier
    r = np.random.RandomState(seed)
    nom = [a for a, kd in enumerate(kinds) if kd]
    m = HoeffdingTreeClassifier(grace_period=float(p["grace"]), split_criterion=p["crit"], split_confidence=float(p["conf"]), tie_threshold=float(p["tie"]),
                                binary_split=p["binary"], remove_poor_atts=p["poor"], no_preprune=p["noprune"], leaf_prediction=p["leaf"],
                                nb_threshold=p["nbt"], stop_mem_management=p["stop"], nominal_attributes=nom or None,
                                memory_estimate_period=p["period"])
    rec.cfg = {"p": dict(p, nom=[a + 1 for a in nom])}
    src = Source(seed, kinds, k, noise=noise, gap=gap)
    trained = False

    def ask():
        X, _ = src.rows(int(r.randint(1, 5)), novel=True)
        rec.hold(X)
        q = m.model_measurements
        rules, descr = [], []
        if trained:
            rules = rules_of(m, kinds)
            descr = described(m.get_model_description(), kinds)
        rec.evs.append({"op": "ask", "X": coded(X, kinds), "proba": [[repr(float(v)) for v in row] for row in m.predict_proba(X)],
                        "pred": [int(v) for v in m.predict(X)], "nodes": int(q["Tree size (nodes)"]), "leaves": int(q["Tree size (leaves)"]),
                        "depth": int(q["Tree depth"]), "active": int(q["Active learning nodes"]), "rules": rules, "descr": descr})
    ask()
    at = 0
    while at < n:
        b = int(r.choice([1, 2, 5, 12, 30]))
        X, y = src.rows(b, novel=at > n // 2)
        w = src.weights(b, style)
        rec.hold(X, y)
        kw = {} if w is None else {"sample_weight": w}
        if classes:
            kw["classes"] = [c * gap for c in range(k)]
        _, why = attempt(m.partial_fit, X, y, **kw)
        rec.ev("fit", X=coded(X, kinds), y=y, w=np.ones(b) if w is None else w, raised=why)
        trained = trained or w is None or bool(np.any(w != 0))
        at += b
        ask()
        if r.rand() < 0.03:
            src.mode += 1
        if r.rand() < 0.01:
            m.reset()
            rec.ev("reset")
            trained = False
            ask()


def replay(rec, p, beh):
    from skmultiflow.trees import HoeffdingTreeClassifier
    kinds = [2, 2]
    m = HoeffdingTreeClassifier(grace_period=p["grace"], split_criterion=p["crit"], split_confidence=float(p["conf"]), tie_threshold=float(p["tie"]), binary_split=p["binary"],
                                leaf_prediction=p["leaf"], nominal_attributes=[0, 1])
    rec.cfg = {"p": dict(p, nom=[1, 2])}
    allrows = np.array([[a, b] for a in range(2) for b in range(3)], dtype=float)
    for a, b, y in beh:
        m.partial_fit(np.array([[a, b]], dtype=float), np.array([y]))
        rec.ev("fit", X=[[a, b]], y=[y], w=[1], raised="")
        q = m.model_measurements
        rec.evs.append({"op": "ask", "X": coded(allrows, kinds), "proba": [[repr(float(v)) for v in row] for row in m.predict_proba(allrows)],
                        "pred": [int(v) for v in m.predict(allrows)], "nodes": int(q["Tree size (nodes)"]), "leaves": int(q["Tree size (leaves)"]),
                        "depth": int(q["Tree depth"]), "active": int(q["Active learning nodes"]), "rules": rules_of(m, kinds), "descr": []})


def scenarios(ctx):
    for j, beh in enumerate(sorted({tuple(map(tuple, b)) for b in ctx.beh["ht"]})):
        if ctx.thorough or (j + ctx.seed) % 12 == 0:
            p = {"grace": 2, "crit": ["info_gain", "gini"][j % 2], "conf": "0.6", "tie": "0.6", "binary": j % 3 == 0, "poor": False, "noprune": False,
                 "leaf": ["nba", "mc", "nb"][j % 5 % 3], "nbt": 0, "stop": False}
            yield Scenario("HoeffdingTrace", "ht-all-%d" % j, replay, p=p, beh=beh)
    r = np.random.RandomState(ctx.seed * 7 + 23)
    for j in range(ctx.n(120, 900)):
        kinds = [[0, 0], [0, 3, 0], [2, 4, 3], [0, 0, 0, 5], [0], [3, 2]][j % 6]
        crit = ["info_gain", "gini", "hellinger"][(j // 6) % 3]
        p = {"grace": int(r.choice([5, 10, 20, 40])), "crit": crit, "conf": ["0.5", "0.1", "0.01", "1e-07"][r.randint(4)], "tie": ["0.05", "0.3", "0.5", "0.0"][r.randint(4)],
             "binary": bool(r.rand() < 0.4), "poor": bool(r.rand() < 0.3), "noprune": bool(r.rand() < 0.3), "leaf": ["mc", "nb", "nba"][r.randint(3)],
             "nbt": int(r.choice([0, 0, 15])), "stop": bool(r.rand() < 0.3), "period": int(r.choice([1000000, 37]))}
        if not all(kinds):
            # class weights after a numeric split are not integers: whether a whole number of rows since the last attempt reaches a whole grace period is up to rounding
            p["grace"] = "%d.25" % p["grace"]
        yield Scenario("HoeffdingTrace", "ht-%d" % j, run, kinds=kinds, k=int(r.randint(2, 4)), p=p, style=["ones", "ints", "any"][r.randint(3)], seed=ctx.seed * 1000 + j,
                       n=ctx.n(300, 800), classes=bool(r.rand() < 0.5), noise=float(r.choice([0.0, 0.1, 0.3])), gap=int(r.choice([1, 1, 3])))
