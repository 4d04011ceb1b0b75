"""C04: ConceptDriftStream is an order-preserving merge of its sources."""
import math

import numpy as np

from rec import Scenario
from c02 import fp, gens


def src(kind, seed, nt=1):
    from skmultiflow import data as D
    if kind == "finite":
        r = np.random.RandomState(seed)
        n = 400
        X = np.column_stack([np.arange(n) + 1000 * seed, r.randint(0, 9, (n, 4))]).astype(float)
        Y = r.randint(0, 3, (n, nt))
        return D.DataStream(X, Y, name="s%d" % seed)
    return gens()[kind](seed)


def play(rec, ka, kb, nt, position, width, alpha, seed, ops, nested=False):
    from skmultiflow.data import ConceptDriftStream
    n = sum(o for o in ops if o > 0)
    fpall = lambda s: [v for _ in range(min(n, 400)) for v in fp(*s.next_sample())]
    A, B = fpall(src(ka, 1, nt)), fpall(src(kb, 2, nt))
    w = width
    kw = dict(width=width)
    if alpha is not None:
        t = int(1 / math.tan(alpha * math.pi / 180))
        w = t if t > 0 else 1
        kw = dict(alpha=alpha)
    s = ConceptDriftStream(src(ka, 1, nt), src(kb, 2, nt), position=position, random_state=seed, **kw)
    rec.cfg = {"pos": position, "width": w, "A": A, "B": B, "na": 400 if ka == "finite" else -1,
               "nb": 400 if kb == "finite" else -1}
    for b in ops:
        if b == 0:
            s.restart()
            rec.ev("restart")
        else:
            x, y = s.next_sample(b)
            rec.hold(x, y)
            got = fp(x, y)
            lx, ly = s.last_sample()
            shape_ok = np.shape(y)[0] == len(x) and (nt == 1) == (np.ndim(y) == 1)
            rec.ev("next", b=b, got=got if shape_ok else ["bad target shape"], last=fp(lx, ly) if shape_ok else [],
                   rem=s.n_remaining_samples(), has=s.has_more_samples())


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed)
    kinds = [("finite", "finite"), ("sea", "sea-bal"), ("finite", "hyper"), ("hyper", "finite"), ("agrawal-0-0", "agrawal-3-0"),
             ("wave", "wave"), ("sine-bal", "sine-bal")]
    for a, b in kinds:
        for k in range(ctx.n(10, 60)):
            pos = int(r.choice([5, 40, 100, 150, 1000]))
            width = int(r.choice([1, 2, 5, 20, 60, 200]))
            alpha = None if k % 3 else float(r.choice([0.5, 2.0, 10.0, 45.0, 89.0, 90.0]))
            one = [int(v) for v in r.choice([1, 1, 2, 7, 20], 30)]
            tot, ops = 0, []
            for v in one:
                if tot + v <= 190:
                    ops.append(v)
                    tot += v
            ops += [190 - tot] if tot < 190 else []
            if k % 2:
                ops = ops + [0] + [1, 5, 60] + [0, 190]
            nt = 2 if (a, b) == ("finite", "finite") and k % 2 else 1
            if a in ("hyper",) or b in ("hyper",):
                nt = 1
            yield Scenario("DriftStreamTrace", "%s+%s/%d" % (a, b, k), play, ka=a, kb=b, nt=nt, position=pos, width=width,
                           alpha=alpha, seed=int(r.randint(1e6)), ops=ops)
