"""C08: reported results."""
from rec import Scenario
from evalrig import report_trace, run
import c05
import c06
import c07


def play(rec, method, **kw):
    report_trace(rec, run(method, **kw))


def scenarios(ctx):
    for method, mod in (("preq", c05), ("delayed", c06), ("holdout", c07)):
        a = (70, 700, 100) if method == "preq" else (50, 500)
        for k, kw in mod.configs(ctx, *a):
            kw.pop("skip", None)
            kw["tvp"] = kw["kind"] in ("class", "reg") and (k // 4) % 2 == 0
            yield Scenario("ReportTrace", "%s-%s/%d" % (method, kw["kind"], k), play, method=method, **kw)
