"""C13: ADWIN."""
import numpy as np

from rec import Scenario


def play(rec, xs, delta, clock, resets=(), skip=0, exactvar=False, fullscan=False, look=1, lazy=0):
    from skmultiflow.drift_detection import ADWIN
    a = ADWIN(delta=delta) if delta != 0.002 else ADWIN()
    if clock != 32:
        a.set_clock(clock)
    rec.cfg = {"p": {"maxb": 5, "clock": clock, "minwin": 10, "minlen": 5, "delta": repr(delta), "exactvar": exactvar, "fullscan": fullscan}}

    def obs():
        return dict(width=int(a.width), total=float(a.total), est=float(a.estimation), ndet=int(a.n_detections),
                    var=float(a.variance))
    for k, x in enumerate(xs):
        if k in resets:
            a.reset()
            if clock != 32:
                a.set_clock(clock)
            rec.ev("reset", **obs())
        a.add_element(x)
        chk = not (skip and k % skip == 0)
        if k % look == 0 or not chk:
            rec.ev("add", x=x, **obs())
        else:
            rec.ev("silent", x=x)
        if chk:
            ch = bool(a.detected_change())
            if lazy and not ch and k % lazy:
                rec.ev("ask")
                continue
            rec.ev("check", change=ch, inchange=bool(a.in_concept_change), **obs())


def stream(r, n, kind):
    seg = int(r.choice([20, 60, 150, 400]))
    out, mu = [], r.rand()
    for k in range(n):
        if k % seg == 0:
            mu = r.rand() if kind != "big" else float(r.randint(-500, 500))
        if kind == "bin":
            out.append(float(r.rand() < mu))
        elif kind == "int":
            out.append(int(r.rand() < mu))
        elif kind == "const":
            out.append(round(mu, 2))
        elif kind == "grad":
            out.append(float(k * k) / n / n + 0.05 * float(r.randn()))
        else:
            out.append(mu + float(r.randn()) * (0.05 if kind == "real" else 3))
    return out


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 3 + 13)
    for k in range(ctx.n(48, 500)):
        kind = ["bin", "real", "int", "const", "big", "grad"][k % 6]
        n = int(r.choice([60, 200, 500, 900] if ctx.thorough else [60, 200, 500]))
        yield Scenario("AdwinTrace", "%s/%d" % (kind, k), play, xs=stream(r, n, kind), delta=float(r.choice([0.002, 0.05, 0.3, 1e-5])),
                       clock=int(r.choice([32, 32, 1, 3, 8])), skip=int(r.choice([0, 0, 3])), look=4,
                       resets=[int(v) for v in r.randint(1, n, 1 + k % 3)] if (k + k // 6) % 2 else [])
    for k in range(ctx.n(2, 8)):        # long windows: buckets of hundreds of values are forgotten
        xs = [float(v < 0.3) for v in r.rand(4500 + 500 * k)] + [float(v < 0.9 - 0.3 * (k % 2)) for v in r.rand(700)]
        yield Scenario("AdwinTrace", "long/%d" % k, play, xs=xs, delta=0.002, clock=32, look=50, lazy=32)
    # known finding: the published algorithm keeps the exact variance of the window and considers every cut
    r = np.random.RandomState(3)
    for k in range(2):
        xs = stream(r, 400, "bin")
        yield Scenario("AdwinTrace", "published-scan/%d" % k, play, kf="F04", xs=xs, delta=0.05, clock=1 + 7 * k, look=4, fullscan=True)
        yield Scenario("AdwinTrace", "published-variance/%d" % k, play, kf="F05", xs=xs, delta=0.05, clock=1 + 7 * k, look=4, exactvar=True)
