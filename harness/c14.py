"""C14: DDM, EDDM, HDDM_A, HDDM_W, PageHinkley.  C15: KSWIN."""
import numpy as np

from rec import Scenario


def make(det, p):
    from skmultiflow import drift_detection as D
    if det == "DDM":
        return D.DDM(min_num_instances=p["min"], warning_level=p["warn"], out_control_level=p["out"])
    if det == "EDDM":
        return D.EDDM()
    if det == "HDDM_A":
        return D.HDDM_A(drift_confidence=p["drift"], warning_confidence=p["warning"], two_side_option=p["two"])
    if det == "HDDM_W":
        return D.HDDM_W(drift_confidence=p["drift"], warning_confidence=p["warning"], lambda_option=p["lambda"],
                        two_side_option=p["two"])
    return D.PageHinkley(min_instances=p["min"], delta=p["delta"], threshold=p["threshold"], alpha=p["alpha"])


def play(rec, det, p, xs, resets=(), default=False):
    from skmultiflow import drift_detection as D
    d = make(det, p) if not default else {"DDM": D.DDM, "EDDM": D.EDDM, "HDDM_A": D.HDDM_A, "HDDM_W": D.HDDM_W,
                                          "PH": D.PageHinkley}[det]()
    rec.cfg = dict({k: (v if isinstance(v, (bool, int)) else repr(v)) for k, v in p.items()}, det=det)
    for k, x in enumerate(xs):
        if k in resets:
            d.reset()
            rec.ev("reset", chg=bool(d.detected_change()), warn=bool(d.detected_warning_zone()))
        d.add_element(x)
        rec.ev("add", x=x, chg=bool(d.detected_change()), warn=bool(d.detected_warning_zone()), est=float(d.estimation))


DEF = {"DDM": {"min": 30, "warn": 2.0, "out": 3.0}, "EDDM": {},
       "HDDM_A": {"drift": 0.001, "warning": 0.005, "two": True},
       "HDDM_W": {"drift": 0.001, "warning": 0.005, "lambda": 0.05, "two": True, "decr": False},
       "PH": {"min": 30, "delta": 0.005, "threshold": 50, "alpha": 1 - 0.0001}}


def params(det, r):
    c = lambda *v: v[r.randint(len(v))]
    if det == "DDM":
        return {"min": c(30, 5, 2, 60), "warn": c(2.0, 1.0, 1.5, 2.9), "out": c(3.0, 2.0, 2.5, 4.0)}
    if det == "HDDM_A":
        return {"drift": c(0.001, 0.05, 0.2), "warning": c(0.005, 0.3), "two": bool(c(0, 1))}
    if det == "HDDM_W":
        return {"drift": c(0.001, 0.05), "warning": c(0.005, 0.3), "lambda": c(0.05, 0.2, 0.01), "two": bool(c(0, 1)), "decr": False}
    if det == "PH":
        return {"min": c(30, 2, 50), "delta": c(0.005, 0.1), "threshold": c(50, 3, 1.5, 0.5), "alpha": c(1 - 0.0001, 0.99, 1.0)}
    return {}


def stream(r, n, real):
    seg = int(r.choice([30, 80, 200, 500]))
    out, mu = [], 0.1 + 0.3 * r.rand()
    for k in range(n):
        if k and k % seg == 0:
            mu = float(r.choice([0.02, 0.1, 0.3, 0.5, 0.8, 0.97]))
        if real:
            out.append(float(mu * 4 + r.randn()))
        else:
            v = r.rand() < mu
            out.append([bool, int, float][seg % 3](v))
    return out


def scenarios(ctx):
    r = np.random.RandomState(ctx.seed * 5 + 14)
    for k in range(ctx.n(30, 300)):
        for det in DEF:
            n = int(r.choice([100, 400, 900]))
            default = k % 3 == 0
            p = DEF[det] if default else params(det, r)
            yield Scenario("DetectorsTrace", "%s/%d" % (det, k), play, det=det, p=p, default=default,
                           xs=stream(r, n, det == "PH" and k % 2), resets=[int(v) for v in r.randint(1, n, 2)] if k % 3 else [])
    xs = [1.0 if j % 2 else 0.0 for j in range(200)] + [0.0] * 100
    yield Scenario("DetectorsTrace", "HDDM_W-two-sided/0", play, kf="F03", det="HDDM_W", p=dict(DEF["HDDM_W"], decr=True), xs=xs)
