"""C03: synthetic generators label samples by their documented concept."""
import numpy as np

from rec import Scenario, enc, enci


def play(rec, gen, seed, fn, balance, noise, perturb, ops, kw, hv=True):
    from skmultiflow import data as D
    kw = dict(kw)
    if gen == "SEA":
        s = D.SEAGenerator(fn, seed, balance_classes=balance, noise_percentage=noise)
    elif gen == "SINE":
        s = D.SineGenerator(fn, seed, balance_classes=balance, **kw)
    elif gen == "MIXED":
        s = D.MIXEDGenerator(fn, seed, balance_classes=balance)
    elif gen == "STAGGER":
        s = D.STAGGERGenerator(fn, seed, balance_classes=balance)
    elif gen == "AGRAWAL":
        s = D.AGRAWALGenerator(fn % 100, seed, balance_classes=balance, perturbation=perturb)
    rec.cfg = {"gen": gen, "fn": fn, "balance": balance, "noise": repr(float(noise)), "perturb": perturb > 0,
               "hv": bool(hv), "seed": seed}
    for o in ops:
        if o[0] == "next":
            x, y = s.next_sample(o[1])
            rec.evs.append(dict(op="next", x=enc(x), y=enci(y)))
        elif o[0] == "drift":
            s.generate_drift()
            rec.ev("drift", fn=s.classification_function)
        else:
            s.restart()
            rec.ev("restart")


def led(rec, gen, seed, noise, has_noise, ndrift, ops):
    from skmultiflow import data as D
    s = D.LEDGenerator(seed, noise, has_noise) if gen == "LED" else \
        D.LEDGeneratorDrift(seed, noise, has_noise, ndrift)
    rec.cfg = {"gen": gen, "noise": repr(float(noise)), "nf": 24 if has_noise else 7,
               "ndrift": ndrift if has_noise else 0}
    for b in ops:
        x, y = s.next_sample(b)
        rec.evs.append(dict(op="next", x=enci(x), y=enci(y)))


def wave(rec, seed, has_noise):
    from skmultiflow import data as D
    s = D.WaveformGenerator(seed, has_noise)
    rec.cfg = {"gen": "WAVE", "minper": 300, "tol": "0.75"}
    for b in [1] * 20 + [29] * 50:
        x, y = s.next_sample(b)
        rec.evs.append(dict(op="next", x=enc(np.round(x[:, :21], 6)), y=enci(y)))


def hyper(rec, seed, nf, ndrift, mag, noise, sigma, n):
    from skmultiflow import data as D
    s = D.HyperplaneGenerator(seed, nf, ndrift, mag, noise, sigma)
    rec.cfg = {"gen": "HYPER", "fn": 0, "noise": repr(float(noise)), "ndrift": ndrift, "mag": repr(float(mag)),
               "perturb": False}
    for _ in range(n):
        w = s._weights.copy()
        x, y = s.next_sample()
        rec.evs.append(dict(op="next", x=enc(x), y=enci(y), w=enc(w), w2=enc(s._weights)))


def tree2rec(nd):
    if not nd.children:
        return {"leaf": True, "label": int(nd.class_label)}
    return {"leaf": False, "att": int(nd.split_att_index),
            "val": enc(float(nd.split_att_value if nd.split_att_value is not None else 0.0)),
            "kids": [tree2rec(c) for c in nd.children]}


def rtree(rec, seed, nnom, nnum, ncat, ncls, depth):
    from skmultiflow import data as D
    s = D.RandomTreeGenerator(seed, seed + 1, ncls, nnom, nnum, ncat, max_tree_depth=depth)
    rec.cfg = {"gen": "RTREE", "fn": 0, "nnum": nnum, "nnom": nnom, "ncat": ncat, "tree": tree2rec(s.tree_root)}
    for b in (1, 7, 30, 1, 40):
        x, y = s.next_sample(b)
        rec.evs.append(dict(op="next", x=[[enci(v) if k >= nnum else enc(v) for k, v in enumerate(r)] for r in x],
                            y=enci(y)))


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed)
    nf = {"SEA": 4, "SINE": 4, "MIXED": 2, "STAGGER": 3, "AGRAWAL": 10}

    def ops(big):
        o = [("next", 1), ("next", int(r.randint(1, 40))), ("drift",), ("next", int(r.randint(1, 40))),
             ("drift",), ("next", 25), ("restart",), ("next", 15), ("next", 1), ("next", 1), ("drift",), ("next", 10)]
        return [("next", big)] + o
    for gen, n in nf.items():
        for f in range(n):
            for bal in (False, True):
                for k in range(ctx.n(2, 12)):
                    yield Scenario("ConceptsTrace", "%s/%d/bal%d/%d" % (gen, f, bal, k), play, gen=gen,
                                   seed=int(r.randint(1e6)), fn=f, balance=bal, noise=0.0, perturb=0.0,
                                   ops=ops(120), kw={"has_noise": True} if gen == "SINE" and k % 2 else {})
    for f in range(4):
        for nz in (0.1, 0.5, 1.0):
            yield Scenario("ConceptsTrace", "SEA/%d/noise%s" % (f, nz), play, gen="SEA", seed=int(r.randint(1e6)),
                           fn=f, balance=False, noise=nz, perturb=0.0, ops=[("next", 300), ("next", 1), ("next", 400)], kw={})
    for f in range(10):
        yield Scenario("ConceptsTrace", "AGRAWAL/%d/perturb" % f, play, gen="AGRAWAL", seed=int(r.randint(1e6)),
                       fn=f, balance=bool(f % 2), noise=0.0, perturb=0.1 * (f + 1), hv=False, ops=ops(80), kw={})
    yield Scenario("ConceptsTrace", "AGRAWAL/kf-hvalue", play, kf="F01", gen="AGRAWAL", seed=3, fn=0, balance=False,
                   noise=0.0, perturb=0.2, hv=True, ops=[("next", 50)], kw={})
    yield Scenario("ConceptsTrace", "AGRAWAL/kf-four", play, kf="F02", gen="AGRAWAL", seed=3, fn=104, balance=False,
                   noise=0.0, perturb=0.0, hv=True, ops=[("next", 100)], kw={})
    for k in range(ctx.n(3, 20)):
        for hn in (False, True):
            sz = [1, 3, 60, 1, 140]
            yield Scenario("ConceptsTrace", "LED/%d/%d" % (k, hn), led, gen="LED", seed=int(r.randint(1e6)), noise=0.0,
                           has_noise=hn, ndrift=0, ops=sz)
            yield Scenario("ConceptsTrace", "LEDnoise/%d/%d" % (k, hn), led, gen="LED", seed=int(r.randint(1e6)),
                           noise=float(r.choice([.1, .3, 1.0])), has_noise=hn, ndrift=0, ops=sz)
        for nd in (0, 1, 4, 7):
            yield Scenario("ConceptsTrace", "LEDD/%d/%d" % (k, nd), led, gen="LEDD", seed=int(r.randint(1e6)), noise=0.0,
                           has_noise=True, ndrift=nd, ops=[1, 3, 60, 1, 140])
        yield Scenario("ConceptsTrace", "LEDD/%d/plain" % k, led, gen="LEDD", seed=int(r.randint(1e6)), noise=0.0,
                       has_noise=False, ndrift=3, ops=[1, 3, 60, 1, 140])
    for k in range(ctx.n(2, 6)):
        yield Scenario("ConceptsTrace", "WAVE/%d" % k, wave, seed=int(r.randint(1e6)), has_noise=bool(k % 2))
    for k in range(ctx.n(8, 40)):
        f = int(r.randint(2, 12))
        yield Scenario("ConceptsTrace", "HYPER/%d" % k, hyper, seed=int(r.randint(1e6)), nf=f, ndrift=int(r.randint(0, f + 1)),
                       mag=float(r.choice([0.0, 0.1, 0.7])), noise=float(r.choice([0.0, 0.0, 0.3])),
                       sigma=float(r.choice([0.0, 0.3])), n=150)
        yield Scenario("ConceptsTrace", "RTREE/%d" % k, rtree, seed=int(r.randint(1e6)), nnom=int(r.randint(0, 4)),
                       nnum=int(r.randint(1, 4)), ncat=int(r.randint(2, 4)), ncls=int(r.randint(2, 5)),
                       depth=int(r.randint(2, 5)))
