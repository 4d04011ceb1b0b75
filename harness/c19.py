"""C19: it does not matter how the training data arrive."""
import numpy as np

from lifecycle import Life, BATCHY, SAMPLED
from rec import Scenario
from c18 import SLOW
import estimators as E

FORMS = ["", "F", "view", "ones", "ca"]


def cuts(rec, learner, seed, ops, unit, once):
    """slot 1: the generated cuts, in varying forms; slot 2: one row at a time; slot 3: one call"""
    L = Life(rec, learner, seed, slots=3, once=once)
    r = L.r
    at, marks = 0, []
    total = sum(o["n"] for o in ops) * unit
    for o in ops:
        L.fit(1, at + 1, at + o["n"] * unit, FORMS[r.randint(len(FORMS))])
        at += o["n"] * unit
        if o["ask"]:
            marks.append(at)
            L.ask(1, list(1 + r.permutation(12)[:5]))
    L.ask(1, [1, 2, 3, 4, 5, 6, 7])
    at = 0
    for j in range(total):
        L.fit(2, j + 1, j + 1, FORMS[j % len(FORMS)])
        if j + 1 in marks:
            L.ask(2, list(range(1, 13)), single=True)
    L.ask(2, [7, 6, 5, 4, 3, 2, 1])
    L.fit(3, 1, total)
    L.ask(3, [1, 3, 5, 7, 2, 4, 6])


def forms(rec, learner, seed, once):
    """the same calls in different forms"""
    L = Life(rec, learner, seed, slots=3, once=once)
    r = L.r
    calls = [(1, 90), (91, 130), (131, 131), (132, 220)]
    for k, (a, b) in enumerate(calls):
        for s in (1, 2, 3):
            L.fit(s, a, b, "" if s == 1 else FORMS[(k + s + r.randint(4)) % len(FORMS)])
            if r.rand() < 0.5:
                L.ask(s, list(1 + r.permutation(12)[:4]), single=r.rand() < 0.4)
    for s in (1, 2, 3):
        L.ask(s, list(range(1, 8)), single=s == 2)


def drifts(rec, learner, seed, scale):
    """sharp concept changes, fed in two ways"""
    L = Life(rec, learner, seed, slots=2, sharp=True, rows=True)
    r = L.r
    end = int(2000 * scale)
    marks = [int(v * scale) for v in (450, 850, 1300, 1700, 2000)]
    for s in (1, 2):
        at = 0
        for m in marks:
            while at < m:
                b = min(m, at + 1 + r.randint(150 if s == 1 else 300))
                if s == 2 and r.rand() < 0.8:
                    L.fit_each(s, at + 1, b)
                else:
                    L.fit(s, at + 1, b, FORMS[r.randint(len(FORMS))] if s == 2 else "")
                at = b
            L.ask(s, [1, 2, 3, 4, 5, 6, 7, 8], single=s == 2)
            L.survey(s)


def scenarios(ctx):
    beh = ctx.beh["ops"]
    r = np.random.RandomState(ctx.seed * 37 + 19)
    for learner in E.registry():
        if learner in SAMPLED:
            continue
        for k in range(ctx.n(2, 10)):
            yield Scenario("LifecycleTrace", "%s/forms-%d" % (learner, k), forms, learner=learner, seed=ctx.seed * 50 + k, once=k % 2 == 1)
        if learner in BATCHY:
            continue
        for k in r.choice(len(beh), ctx.n(3 if learner in SLOW else 6, 30), replace=False):
            yield Scenario("LifecycleTrace", "%s/cuts-%d" % (learner, k), cuts, learner=learner, seed=ctx.seed * 60 + int(k), ops=beh[int(k)],
                           unit=[11, 29, 52][int(k) % 3] if learner not in SLOW else 13, once=int(k) % 2 == 1)
        if learner not in SLOW | {"LearnPP"}:
            for k in range(ctx.n(1, 5)):
                yield Scenario("LifecycleTrace", "%s/drifts-%d" % (learner, k), drifts, learner=learner, seed=ctx.seed * 1000 + k,
                               scale=0.4 if learner == "EFDT" else 1.0)
