"""C02: seeded generators are reproducible and independent of batching."""
import zlib

import numpy as np

from rec import Scenario, enc


def gens():
    """name -> factory(seed) for every endless generator, several settings"""
    from skmultiflow import data as D
    g = {}
    for f in (0, 3, 7):
        for bal in (False, True):
            g["agrawal-%d-%d" % (f, bal)] = lambda s, f=f, bal=bal: D.AGRAWALGenerator(f, s, balance_classes=bal)
    g["agrawal-pert"] = lambda s: D.AGRAWALGenerator(1, s, balance_classes=True, perturbation=0.3)
    g["hyper"] = lambda s: D.HyperplaneGenerator(s, n_features=5)
    g["hyper-drift"] = lambda s: D.HyperplaneGenerator(s, n_features=5, n_drift_features=3, mag_change=0.3,
                                                       noise_percentage=0.2, sigma_percentage=0.4)
    g["led"] = lambda s: D.LEDGenerator(s, noise_percentage=0.2)
    g["led-noise"] = lambda s: D.LEDGenerator(s, noise_percentage=0.2, has_noise=True)
    g["ledd"] = lambda s: D.LEDGeneratorDrift(s, noise_percentage=0.1, has_noise=True, n_drift_features=4)
    g["ledd-plain"] = lambda s: D.LEDGeneratorDrift(s, noise_percentage=0.1)
    g["mixed"] = lambda s: D.MIXEDGenerator(0, s)
    g["mixed-bal"] = lambda s: D.MIXEDGenerator(1, s, balance_classes=True)
    g["rbf"] = lambda s: D.RandomRBFGenerator(s, s + 1, n_classes=3, n_features=4, n_centroids=7)
    g["rbfd"] = lambda s: D.RandomRBFGeneratorDrift(s, s + 1, n_classes=3, n_features=4, n_centroids=7,
                                                    change_speed=0.5, num_drift_centroids=5)
    g["rbfd-all"] = lambda s: D.RandomRBFGeneratorDrift(s, s + 1, n_features=3, n_centroids=4, change_speed=0.9)
    g["tree"] = lambda s: D.RandomTreeGenerator(s, s + 1, n_classes=3, n_cat_features=2, n_num_features=3,
                                                n_categories_per_cat_feature=3)
    g["sea"] = lambda s: D.SEAGenerator(2, s, noise_percentage=0.2)
    g["sea-bal"] = lambda s: D.SEAGenerator(1, s, balance_classes=True)
    g["sine"] = lambda s: D.SineGenerator(3, s, has_noise=True)
    g["sine-bal"] = lambda s: D.SineGenerator(0, s, balance_classes=True)
    g["stagger"] = lambda s: D.STAGGERGenerator(1, s)
    g["stagger-bal"] = lambda s: D.STAGGERGenerator(0, s, balance_classes=True)
    g["wave"] = lambda s: D.WaveformGenerator(s)
    g["wave-noise"] = lambda s: D.WaveformGenerator(s, has_noise=True)
    return g


NAMES = ["agrawal-%d-%d" % (f, b) for f in (0, 3, 7) for b in (0, 1)] + [
    "agrawal-pert", "hyper", "hyper-drift", "led", "led-noise", "ledd", "ledd-plain", "mixed", "mixed-bal", "rbf",
    "rbfd", "rbfd-all", "tree", "sea", "sea-bal", "sine", "sine-bal", "stagger", "stagger-bal", "wave", "wave-noise"]


def fp(x, y):
    x = np.ascontiguousarray(x, dtype=float) + 0.0
    y = np.ascontiguousarray(y, dtype=float).reshape(len(x), -1) + 0.0
    return [zlib.crc32(np.concatenate([a, b]).tobytes()) & 0x3fffffff for a, b in zip(x, y)]


def foreign(k):
    """activity that must not matter"""
    g = gens()
    np.random.seed(k)
    np.random.rand(3)
    for n in NAMES[k % 5::5]:
        s = g[n](k + 17)
        s.next_sample(2)
        if k % 2:
            s.restart()


def play(rec, name, seed, ops, k, seedkind="int"):
    mk = gens()[name]
    ref = mk(seed)
    n = sum(o["b"] for o in ops) + 1
    seq = []
    for _ in range(n):
        x, y = ref.next_sample()
        seq += fp(x, y)
    foreign(seed)
    insts = [mk(seed) for _ in range(k)]
    rec.cfg = {"ref": seq, "k": k, "nf": int(ref.n_features), "gen": name, "seed": seed}
    for q, o in enumerate(ops):
        j = o["j"]
        s = insts[j - 1]
        if o["op"] == "next":
            x, y = s.next_sample(o["b"])
            rec.hold(x, y)
            lx, ly = s.last_sample()
            nf = sorted({len(r) for r in x})
            rec.ev("next", j=j, b=o["b"], got=fp(x, y), last=fp(lx, ly), rem=s.n_remaining_samples(),
                   has=s.has_more_samples(), nf=nf[0] if len(nf) == 1 else nf)
        elif o["op"] == "restart":
            s.restart()
            rec.ev("restart", j=j)
        else:
            foreign(q + seed)
            rec.ev("foreign")


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed)
    behs = ctx.beh["ops"]
    for name in NAMES:
        for k in r.choice(len(behs), min(len(behs), ctx.n(25, 300)), replace=False):
            yield Scenario("SeededStreamTrace", "%s/gen%d" % (name, k), play, name=name,
                           seed=int(r.randint(1000)), ops=behs[k], k=2)
        for k in range(ctx.n(4, 25)):
            ops = []
            for _ in range(int(r.randint(6, 20))):
                q = r.rand()
                j = int(r.randint(1, 4))
                ops.append({"op": "next", "j": j, "b": int(r.choice([1, 1, 2, 5, 13]))} if q < .75 else
                           {"op": "restart", "j": j, "b": 0} if q < .9 else {"op": "foreign", "j": 1, "b": 0})
            yield Scenario("SeededStreamTrace", "%s/rnd%d" % (name, k), play, name=name,
                           seed=int(r.randint(100000)), ops=ops, k=3)
        # long stretches: late samples must not depend on batching either
        for k in range(ctx.n(1, 5)):
            ops = [{"op": "next", "j": 1, "b": 150}, {"op": "next", "j": 2, "b": 1}, {"op": "next", "j": 2, "b": 149},
                   {"op": "restart", "j": 1, "b": 0}, {"op": "next", "j": 1, "b": 75}, {"op": "next", "j": 1, "b": 75}]
            yield Scenario("SeededStreamTrace", "%s/long%d" % (name, k), play, name=name,
                           seed=int(r.randint(100000)), ops=ops, k=2)
