"""C30: VeryFastDecisionRulesClassifier against spec/RuleSet.tla."""
import re

import numpy as np

from classdata import Source, coded
from rec import Scenario, attempt


def detector(every):
    from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector

    class Every(BaseDriftDetector):
        """a change at every so many-th error"""
        def __init__(self):
            super().__init__()
            self.seen = 0

        def reset(self):
            super().reset()
            self.seen = 0

        def add_element(self, value):
            self.seen += int(value)
            self.in_concept_change = bool(value) and self.seen % every == 0

        def detected_change(self):
            return self.in_concept_change
    return Every() if every else None


def dist(n):
    return {"cs": [int(c) for c in n], "ws": [repr(float(v)) for v in n.values()]}


def rules_of(m, kinds):
    out = []
    for q in m.get_model_rules():
        path = [[int(z.att_idx) + 1, str(z.operator), int(z.value) if kinds[int(z.att_idx)] else repr(float(z.value))] for z in q.predicate_set]
        out.append(dict(dist(q.observed_class_distribution), path=path, **{"class": int(q.class_idx)}))
    return out


def described(text, kinds):
    """the lines of a description, the default rule last"""
    out = []
    for line in text.splitlines():
        g = re.match(r"(Rule (\d+)|Default Rule) :(.*?)\|\s*class\s*:\s*(\S+)\s+\{(.*)\}$", line)
        assert g, "a line of the description cannot be read: " + line
        path = [[int(a) + 1, op, int(float(v)) if kinds[int(a)] else v] for a, op, v in re.findall(r"Att \((\d+)\) (\S+) (-?[\d.]+)", g.group(3))]
        n = [t.split(":") for t in g.group(5).split(",") if t]
        out.append({"path": path, "cs": [int(float(c)) for c, _ in n], "ws": [v.strip() for _, v in n], "class": int(float(g.group(4)))})
    return out


def run(rec, kinds, k, p, style, seed, n, classes, noise):
    from skmultiflow.rules import VeryFastDecisionRulesClassifier
    r = np.random.RandomState(seed)
    nom = [a for a, kd in enumerate(kinds) if kd]
    m = VeryFastDecisionRulesClassifier(expand_confidence=float(p["conf"]), ordered_rules=p["ordered"], grace_period=float(p["grace"]), tie_threshold=float(p["tie"]),
                                        rule_prediction=p["ask"], nominal_attributes=nom, max_rules=p["max"], nb_threshold=p["nbt"], nb_prediction=p["nb"],
                                        drift_detector=detector(p["det"]), expand_criterion=p["crit"], remove_poor_atts=p["poor"], min_weight=p["minw"])
    rec.cfg = {"p": dict(p, nom=[a + 1 for a in nom])}
    src = Source(seed, kinds, k, noise=noise)

    def look(X):
        rules = rules_of(m, kinds)
        return (m.predict_proba(X), m.predict(X), rules, described(m.get_model_description(), kinds), m.get_model_measurements()["Number of rules: "])

    def ask():
        X, _ = src.rows(int(r.randint(1, 5)), novel=True)
        rec.hold(X)
        got, why = attempt(look, X)
        proba, pred, rules, descr, count = got if not why else ([], [], [], [], 0)
        rec.evs.append({"op": "ask", "X": coded(X, kinds), "proba": [[repr(float(v)) for v in row] for row in proba], "pred": [int(v) for v in pred],
                        "rules": rules, "descr": descr, "count": int(count), "raised": why})
        return why
    at = 0
    if ask():
        return
    while at < n:
        b = int(r.choice([1, 2, 5, 12]))
        X, y = src.rows(b, novel=at > n // 2)
        w = src.weights(b, style)
        rec.hold(X, y)
        kw = {} if w is None else {"sample_weight": w}
        if classes:
            kw["classes"] = list(range(k))
        _, why = attempt(m.partial_fit, X, y, **kw)
        rec.ev("fit", X=coded(X, kinds), y=y, w=np.ones(b) if w is None else w, raised=why)
        at += b
        if why or ask():
            return
        if r.rand() < 0.04:
            src.mode += 1
        if r.rand() < 0.01:
            m.reset()
            rec.ev("reset")
            ask()


def replay(rec, p, beh):
    """a behaviour of RuleSetMC, row by row"""
    from skmultiflow.rules import VeryFastDecisionRulesClassifier
    kinds = [2, 2]
    m = VeryFastDecisionRulesClassifier(expand_confidence=float(p["conf"]), ordered_rules=p["ordered"], grace_period=p["grace"], tie_threshold=float(p["tie"]),
                                        rule_prediction=p["ask"], nominal_attributes=[0, 1], max_rules=p["max"], nb_threshold=0, nb_prediction=p["nb"],
                                        drift_detector=detector(p["det"]), expand_criterion=p["crit"], min_weight=p["minw"])
    rec.cfg = {"p": dict(p, nom=[1, 2])}
    every = np.array([[a, b] for a in range(2) for b in range(3)], dtype=float)
    for a, b, y in beh:
        m.partial_fit(np.array([[a, b]], dtype=float), np.array([y]))
        rec.ev("fit", X=[[a, b]], y=[y], w=[1], raised="")
        rec.evs.append({"op": "ask", "X": coded(every, kinds), "proba": [[repr(float(v)) for v in row] for row in m.predict_proba(every)], "pred": [int(v) for v in m.predict(every)],
                        "rules": rules_of(m, kinds), "descr": described(m.get_model_description(), kinds), "count": int(m.get_model_measurements()["Number of rules: "]), "raised": ""})


def scenarios(ctx):
    for j, beh in enumerate(sorted({tuple(map(tuple, b)) for b in ctx.beh["rules"]})):
        if ctx.thorough or (j + ctx.seed) % 12 == 0:
            p = {"grace": 2, "crit": ["info_gain", "hellinger"][j % 2], "conf": "0.6", "tie": "0.6", "poor": False, "max": [1, 2, 5][j % 3], "ordered": False,
                 "ask": ["first_hit", "weighted_max", "weighted_sum"][j // 2 % 3], "nb": j % 5 == 0, "nbt": 0, "det": [0, 1, 2][j // 3 % 3], "minw": [0, 1][j % 2]}
            yield Scenario("RuleSetTrace", "vfdr-all-%d" % j, replay, p=p, beh=beh)
    r = np.random.RandomState(ctx.seed * 71 + 30)
    for j in range(ctx.n(120, 1000)):
        kinds = [[0, 0], [0, 3, 0], [2, 4, 3], [0, 0, 0, 5], [0], [3, 2], [5, 5]][j % 7]
        crit = ["info_gain", "hellinger"][(j // 7) % 3 == 2]
        ordered = bool(r.rand() < 0.4)
        p = {"grace": "%d%s" % (r.choice([5, 10, 20, 40]), "" if all(kinds) else ".25"), "crit": crit, "conf": ["0.5", "0.1", "0.01", "1e-07"][r.randint(4)],
             "tie": ["0.05", "0.3", "0.5", "0.0"][r.randint(4)], "poor": bool(r.rand() < 0.3), "max": int(r.choice([2, 5, 1000])), "ordered": ordered,
             "ask": "first_hit" if ordered else ["first_hit", "weighted_max", "weighted_sum"][r.randint(3)], "nb": bool(r.rand() < 0.5), "nbt": int(r.choice([0, 0, 15])),
             "det": int(r.choice([0, 3, 8])), "minw": int(r.choice([0, 20, 60]))}
        yield Scenario("RuleSetTrace", "vfdr-%d" % j, run, kinds=kinds, k=int(r.randint(2, 4)) if crit == "info_gain" else 2, p=p, style=["ones", "ints", "any"][r.randint(3)],
                       seed=ctx.seed * 1000 + j, n=ctx.n(160, 500), classes=bool(r.rand() < 0.5), noise=float(r.choice([0.0, 0.1, 0.3])))
