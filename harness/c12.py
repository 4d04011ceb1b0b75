"""C12: buffers, sliding windows and counting matrices."""
import numpy as np

from rec import Scenario, enc, enci


def row(k, w):
    return [float(100 * k + j) for j in range(w)]


def buf(rec, kind, mx, w, ops, form):
    from skmultiflow.utils import data_structures as DS
    rec.cfg = {"kind": kind, "max": mx}
    if kind == "fast":
        b = DS.FastBuffer(mx)
    elif kind == "complex":
        b = DS.FastComplexBuffer(mx, w)
    else:
        b = DS.SlidingWindow(window_size=mx)

    def obs():
        if kind == "window":
            X, Y = b.features_buffer, b.targets_buffer
            q = [] if X is None else [[enci(x), enci(y)] for x, y in zip(X, Y)]
            return dict(q=q, size=b.size, full=b.size == mx, empty=b.size == 0, peek=q[0] if q else "None")
        q = enci(list(b.get_queue()))
        return dict(q=q, size=b.get_current_size(), full=b.is_full(), empty=b.is_empty(), peek=enci(b.peek()))
    nxt = 1
    for o in ops:
        n = o["n"]
        if o["op"] == "add":
            ks = list(range(nxt, nxt + n))
            nxt += n
            if kind == "fast":
                xs = [float(k) for k in ks] if form % 3 else [row(k, 2) for k in ks]
                arg = np.array(xs) if form % 2 else list(xs)
                ret = b.add_element(arg)
            elif kind == "complex":
                xs = [row(k, w) for k in ks]
                a = xs[0] if n == 1 and form % 3 == 0 else xs
                ret = b.add_element(np.array(a) if form % 2 else a)
            else:
                xs = []
                for k in ks:
                    x, y = row(k, w), row(-k, 1 + form % 2)
                    xs.append([enci(x), enci(y)])
                    X, Y = np.array([x]), np.array([y])
                    rec.hold(X, Y)
                    b.add_sample(X, Y)
                ret = None
            rec.evi("add", xs=xs, ret=ret, **obs())
        elif o["op"] == "get":
            rec.evi("get", ret=b.delete_oldest_sample() if kind == "window" else b.get_next_element(), **obs())
        else:
            b.reset() if kind == "window" else b.clear_queue()
            rec.evi("clear", **obs())


def conf(rec, n, ops):
    from skmultiflow.utils.data_structures import ConfusionMatrix
    rec.cfg = {"kind": "conf", "n": n}
    m = ConfusionMatrix(n_targets=n)
    obs = lambda: dict(m=np.asarray(m.matrix), diag=m.get_sum_main_diagonal(), total=m.sample_count)
    for o in ops:
        if o[0] == "update":
            ret = m.update(o[1], o[2], o[3])
            rec.evi("update", i=o[1], j=o[2], w=o[3], ret=bool(ret), **obs())
        elif o[0] == "remove":
            ret = m.remove(o[1], o[2])
            rec.evi("remove", i=o[1], j=o[2], ret=bool(ret), **obs())
        else:
            m.restart(o[1])
            rec.evi("restart", n=o[1], **obs())


def mol(rec, n, ops):
    from skmultiflow.utils.data_structures import MOLConfusionMatrix
    rec.cfg = {"kind": "mol", "n": n}
    m = MOLConfusionMatrix(n_targets=n)
    obs = lambda: dict(m=np.asarray(m.matrix), diag=m.get_sum_main_diagonal(), total=m.get_total_sum())
    for o in ops:
        if o[0] == "update":
            ret = m.update(o[1], o[2], o[3], o[4])
            rec.evi("update", t=o[1], i=o[2], j=o[3], w=o[4], ret=bool(ret), **obs())
        elif o[0] == "remove":
            ret = m.remove(o[1], o[2], o[3])
            rec.evi("remove", t=o[1], i=o[2], j=o[3], ret=bool(ret), **obs())
        else:
            m.restart(o[1])
            rec.evi("restart", n=o[1], **obs())


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed)
    for k, ops in enumerate(ctx.beh["ops"]):
        for kind in ("fast", "complex", "window"):
            yield Scenario("FifoTrace", "%s-gen/%d" % (kind, k), buf, kind=kind, mx=3, w=3, ops=ops, form=k)
    for k in range(ctx.n(60, 600)):
        ops = [{"op": str(r.choice(["add", "add", "add", "get", "clear"] if r.rand() < .1 else ["add", "add", "get"])),
                "n": int(r.randint(1, 9))} for _ in range(25)]
        for kind in ("fast", "complex", "window"):
            yield Scenario("FifoTrace", "%s-rand/%d" % (kind, k), buf, kind=kind, mx=int(r.choice([1, 2, 5, 12])),
                           w=int(r.choice([1, 2, 4])), ops=ops, form=k)
    for k in range(ctx.n(40, 400)):
        nc = int(r.choice([1, 2, 4]))
        ops, have = [], []
        for _ in range(30):
            u = r.rand()
            if u < 0.7 or not have:
                o = ("update", int(r.randint(nc + 2)), int(r.randint(nc + 2)), int(r.choice([1, 1, 2, 5])))
                have.append(o[1:3])
            elif u < 0.95:
                o = ("remove",) + have.pop(int(r.randint(len(have))))
                if r.rand() < 0.2:
                    o = ("remove", 9, 0)
            else:
                o, have = ("restart", int(r.choice([0, 2, 3]))), []
            ops.append(o)
        yield Scenario("FifoTrace", "confusion/%d" % k, conf, n=int(r.choice([0, 2, 3])), ops=ops)
    for k in range(ctx.n(40, 400)):
        ops, have = [], []
        for _ in range(30):
            u = r.rand()
            if u < 0.75 or not have:
                o = ("update", int(r.randint(5)), int(r.choice([0, 1, 1, 2])), int(r.choice([0, 1])), int(r.choice([1, 1, 3])))
                if o[2] < 2:
                    have.append(o[1:4])
            elif u < 0.95:
                o = ("remove",) + (have.pop(int(r.randint(len(have)))) if r.rand() < .8 else (0, 2, 1))
                # a refused update was never counted; removing it may go below zero, which is still an exact count
            else:
                o, have = ("restart", int(r.choice([0, 2, 3]))), []
            ops.append(o)
        yield Scenario("FifoTrace", "mol/%d" % k, mol, n=int(r.choice([0, 2, 3])), ops=ops)
