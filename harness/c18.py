"""C18: a model is exactly what it was taught since it was made or reset."""
import numpy as np

from lifecycle import Life, SAMPLED, NOCLONE, REWRITES
from rec import Scenario
import estimators as E


def play(rec, learner, ops, seed, lens):
    L = Life(rec, learner, seed)
    r = L.r
    cut = {1: (1, lens[0]), 3: (lens[0] + 1, lens[0] + lens[1])}
    for j, o in enumerate(ops):
        s, t = o["s"], o["t"]
        if r.rand() < 0.4:
            L.noise()
        if o["op"] == "fit":
            L.fit(s, *cut[t])
        elif o["op"] == "ask":
            L.ask(s, [1, 2, 3, 4, 5, 6] if j % 3 else [6, 4, 2, 1, 3, 5], single=r.rand() < 0.3)
        elif o["op"] == "reset":
            L.reset(s)
        elif o["op"] == "clone":
            if learner in NOCLONE:
                L.new(t)
            else:
                L.clone(s, t)
        else:
            L.copy(s, t, "copy" if r.rand() < 0.6 else "pickle")
        if j % 3 == 2:
            L.params(s)
    L.params(1)


def wander(rec, learner, seed, n):
    """a long random life of three instances"""
    L = Life(rec, learner, seed, slots=3)
    r = L.r
    at = [0] * 4
    for _ in range(n):
        s, t = 1 + r.randint(3), 1 + r.randint(3)
        x = r.rand()
        if x < 0.5:
            size = [15, 40, 90][r.randint(3)]
            a = at[s] % 300
            if a == 0:
                size = 90                       # first call: every class is there
            b = min(a + size, 330)
            L.fit(s, a + 1, b)
            at[s] = b if b < 330 else 0
        elif x < 0.8:
            if at[s] or L.taught[s]:
                L.ask(s, list(1 + r.permutation(12)[:4]), single=r.rand() < 0.4)
        elif x < 0.85:
            L.reset(s)
            at[s] = 0
        elif x < 0.9 and s != t:
            if learner in NOCLONE:
                L.new(t)
            else:
                L.clone(s, t)
            at[t] = 0
        elif s != t:
            L.copy(s, t, "copy" if r.rand() < 0.5 else "pickle")
            at[t] = at[s]
        L.noise()
    # confirm the state of every slot against a model made from scratch by the same calls
    calls = {k: [] for k in (1, 2, 3)}
    for e in rec.evs:
        if e["op"] == "fit":
            calls[e["s"]].append((e["a"], e["b"]))
        elif e["op"] in ("new", "reset"):
            calls[e["s"]] = []
        elif e["op"] == "clone":
            calls[e["t"]] = []
        elif e["op"] in ("copy", "pickle"):
            calls[e["t"]] = list(calls[e["s"]])
    s = max(calls, key=lambda k: len(calls[k]))
    if calls[s]:
        t = 1 + s % 3
        L.ask(s, [1, 2, 3, 4, 5, 6])
        L.new(t)
        for a, b in calls[s]:
            L.fit(t, a, b)
        L.ask(t, [1, 2, 3, 4, 5, 6])
        L.fit(s, 201, 240)
        L.fit(t, 201, 240)
        L.ask(s, [7, 8, 9])
        L.ask(t, [7, 8, 9])
    L.params(1)


def restart(rec, learner, seed, alt, clone):
    """after a reset (or as a clone) the model takes data of another kind as a new one does"""
    L = Life(rec, learner, seed)
    q = [1, 2, 3, 4, 5, 6, 7, 8]
    L.fit(1, 1, 60)
    L.ask(1, q)
    if clone:
        L.clone(1, 1)
    else:
        L.reset(1)
    for a, b in ((1, 90), (91, 150)):
        for s in (1, 2):
            L.fit(s, a, b, alt=alt)
            L.ask(s, q)
    L.reset(1)
    L.fit(1, 1, 60)
    L.ask(1, q)


def drifts(rec, learner, seed, scale):
    """the same lives through sharp concept changes (detectors fire, members are replaced, subtrees switched)"""
    L = Life(rec, learner, seed, sharp=True)
    r = L.r
    ends = [int(v * scale) for v in (400, 700, 1000, 1300, 1600, 1800, 2000)]
    when = sorted(1 + r.permutation(5)[:2])
    q = [1, 2, 3, 4, 5, 6, 7, 8]
    at = 0
    for k, b in enumerate(ends):
        L.fit(1, at + 1, b)
        if k and k > when[0]:
            L.fit(2, at + 1, b)
            L.ask(2, q)
        L.ask(1, q)
        L.survey(1)
        if k == when[0]:
            L.copy(1, 2, "copy" if r.rand() < 0.5 else "pickle")
            L.noise()
        at = b
    # start over: by reset, by clone, after the drifts
    stop = ends[2 + r.randint(4)]
    L.reset(1)
    at = 0
    for b in ends:
        if b > stop:
            break
        L.fit(1, at + 1, b)
        L.ask(1, q)
        L.survey(1)
        at = b
    if learner in NOCLONE:
        L.new(2)
    else:
        L.clone(2, 2)
    L.fit(2, 1, ends[0])
    L.ask(2, q)
    L.params(1)


def startover(rec, learner, seed, clone, scale):
    """a life through changes, ended anywhere by a reset, then another life through changes next to a new model's"""
    L = Life(rec, learner, seed, sharp=True)
    r = L.r
    chunk = lambda n: (lambda a: (a, a + n - 1))(1 + 400 * int(r.randint(5)) + int(r.randint(400 - n)))
    for _ in range(3):
        L.fit(1, *chunk(int(scale * (60 + r.randint(240)))))
        L.survey(1)
    if clone:
        L.clone(1, 1)
    else:
        L.reset(1)
    for k in range(6):
        c = chunk(int(scale * 150))
        if k == 0:
            c = (1, max(c[1] - c[0], 90))
        for s in (1, 2):
            L.fit(s, *c)
            L.survey(s)


def kf_clone(rec, learner, seed):
    L = Life(rec, learner, seed)
    L.fit(1, 1, 60)
    L.ask(1, [1, 2, 3])
    L.clone(1, 2)
    L.fit(2, 1, 60)
    L.ask(2, [1, 2, 3])


def kf_params(rec, learner, seed):
    L = Life(rec, learner, seed, skip="")
    L.fit(1, 1, 60)
    L.params(1)


SLOW = {"OnlineBoosting", "OnlineBoosting-knn", "OnlineUOB-knn", "OnlineAdaC2", "OnlineCSB2", "OnlineRUSBoost-1", "OnlineRUSBoost-2", "OnlineRUSBoost-3", "OnlineUOB",
        "OnlineSMOTE", "SRP-resampling", "ARF-all"}


def scenarios(ctx):
    beh = ctx.beh["ops"]
    r = np.random.RandomState(ctx.seed * 31 + 18)
    for learner in E.registry():
        if learner in SAMPLED:
            continue
        n = ctx.n(4 if learner in SLOW else 9, 60)
        for k in r.choice(len(beh), n, replace=False):
            yield Scenario("LifecycleTrace", "%s/gen-%d" % (learner, k), play, learner=learner, ops=beh[int(k)], seed=ctx.seed * 100 + int(k) % 7,
                           lens=(60, 40) if learner in SLOW else (90, 160))
        for k in range(ctx.n(1 if learner in SLOW else 2, 12)):
            yield Scenario("LifecycleTrace", "%s/life-%d" % (learner, k), wander, learner=learner, seed=ctx.seed * 1000 + k,
                           n=ctx.n(12 if learner in SLOW else 25, 40))
        kind = E.registry()[learner][0]
        for k in range(ctx.n(2, 8)):
            alt = 1 if k % 2 == 0 and kind == "cls" else 2
            if alt == 2 and learner in REWRITES:
                continue                            # known finding F09
            yield Scenario("LifecycleTrace", "%s/restart-%d" % (learner, k), restart, learner=learner, seed=ctx.seed * 100 + k, alt=alt,
                           clone=k % 4 > 1 and learner not in NOCLONE)
        if learner not in SLOW | {"LearnPP"}:
            for k in range(ctx.n(1, 6)):
                yield Scenario("LifecycleTrace", "%s/drifts-%d" % (learner, k), drifts, learner=learner, seed=ctx.seed * 1000 + k,
                               scale=0.4 if learner == "EFDT" else 1.0)
    for learner in E.registry():
        if learner in SAMPLED or learner == "LearnPP":
            continue
        for k in range(ctx.n(1 if learner in SLOW else 2, 12)):
            yield Scenario("LifecycleTrace", "%s/startover-%d" % (learner, k), startover, learner=learner, seed=ctx.seed * 1000 + k,
                           clone=k % 2 == 1 and learner not in NOCLONE, scale=0.4 if learner in SLOW | {"EFDT"} else 1.0)
    for k, learner in (("F06", "VFDR-ordered-drift"), ("F07", "OnlineBoosting"), ("F08", "OnlineSMOTE")):
        yield Scenario("LifecycleTrace", "kf-clone/" + learner, kf_clone, kf=k, learner=learner, seed=5)
    for learner in REWRITES:
        yield Scenario("LifecycleTrace", "kf-params/" + learner, kf_params, kf="F09", learner=learner, seed=5)
