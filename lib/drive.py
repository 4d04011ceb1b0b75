"""Driver process: runs every scenario of harness/<module>.py against the code
found on PYTHONPATH and writes the recorded traces.
usage: drive.py <module> <outfile> <seed> <tier> <behaviours.json>"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
import rec  # noqa

SCS = []


def work(k):
    # scenarios may print; keep that out of our protocol
    return rec.run_scenario(SCS[k])


class Ctx:
    pass


def main():
    mod, out, seed, tier, beh = sys.argv[1:6]
    global SCS
    ctx = Ctx()
    ctx.seed, ctx.tier = int(seed), tier
    ctx.thorough = tier == "thorough"
    ctx.beh = json.load(open(beh))
    ctx.n = lambda q, t: t if ctx.thorough else q
    try:
        m = importlib.import_module(mod)
        SCS = list(m.scenarios(ctx))
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR", flush=True)
        sys.exit(3)
    only = os.environ.get("VERIF_ONLY")
    if only:
        SCS = [s for s in SCS if only in s.name]
    names = [s.name for s in SCS]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if nproc > 1 and len(SCS) > 1:
        with mp.get_context("fork").Pool(min(nproc, len(SCS))) as pool:
            res = pool.map(work, range(len(SCS)), chunksize=max(1, min(20, len(SCS) // 64)))
    else:
        res = [work(k) for k in range(len(SCS))]
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


main()
