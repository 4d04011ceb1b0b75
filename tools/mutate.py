#!/usr/bin/env python3
"""Development tool: mutate.py CHECKS FILE[:from-to] ... [--max N] [--seed S] [--jobs J]
Small syntactic changes of the given files (relative to src/skmultiflow) in scratch copies of /repo; for each the listed checks are run (without model checking)
until one reports a violation; the survivors are printed as diffs."""
import ast
import difflib
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = "/tmp/vm"
args = sys.argv[1:]
opt = {"--max": "60", "--seed": "1", "--jobs": "4"}
for k in list(opt):
    if k in args:
        i = args.index(k)
        opt[k] = args[i + 1]
        del args[i:i + 2]
checks, files = args[0].split(","), args[1:]
subprocess.check_call("rm -rf %s && git clone -q /verif %s" % (V, V), shell=True)
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "+"}


def mutants(path, lo, hi):
    src = open(path).read()
    lines = src.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def put(n, new, what):
        s, e = pos(n)
        if lo <= n.lineno <= hi:
            out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))
    tree = ast.parse(src)
    docs = {id(n.body[0]) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in CMP:
                put(n, "%s %s %s" % (seg(n.left), CMP[t], seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(getattr(n.left, "value", 0), str):
            put(n, "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            put(n, "(%s %s %s)" % (seg(n.values[0]), "or" if isinstance(n.op, ast.And) else "and", seg(n.values[1])), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, seg(n.operand), "not")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            put(n, repr(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, repr(not n.value), "const")
        elif isinstance(n, (ast.AugAssign,)):
            put(n, seg(n).replace("+=", "-=", 1) if isinstance(n.op, ast.Add) else "pass", "aug")
            put(n, "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, "pass", "del")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and id(n) not in docs:
            put(n, "pass", "del")
        elif isinstance(n, ast.If):
            put(n.test, "True", "if1")
            put(n.test, "False", "if0")
    good = []
    for ln, what, s in out:
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        if s != src:
            good.append((ln, what, s))
    return src, good


jobs = []
for f in files:
    lo, hi = 1, 10 ** 9
    if ":" in f:
        f, r = f.split(":")
        lo, hi = map(int, r.split("-"))
    p = "/repo/src/skmultiflow/" + f
    src, ms = mutants(p, lo, hi)
    jobs += [(f, src, ln, what, s) for ln, what, s in ms]
random.seed(int(opt["--seed"]))
random.shuffle(jobs)
total = len(jobs)
jobs = jobs[:int(opt["--max"])]
print("%d of %d mutants" % (len(jobs), total), flush=True)


def one(a):
    k, (f, src, ln, what, s) = a
    d = "/tmp/mut/%d-%d" % (os.getpid(), k)
    v = d + "-v"
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.check_call("cp -a /repo %s && cp -a %s %s" % (d, V, v), shell=True)
    try:
        q = d + "/src/skmultiflow/" + f
        open(q, "w").write(s)
        env = dict(os.environ, VERIF_REPO=d, VERIF_NOMC="1", VERIF_PROCS="2")
        for c in checks:
            try:
                r = subprocess.run([v + "/bin/check", c], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return f, ln, what, "TIMEOUT " + c, None
            if r.returncode == 1:
                return f, ln, what, "caught " + c, None
            if r.returncode:
                return f, ln, what, "ERROR %s rc=%d %s" % (c, r.returncode, (r.stdout + r.stderr)[-200:]), None
        diff = "".join(list(difflib.unified_diff(src.splitlines(1), s.splitlines(1), n=2))[2:])
        return f, ln, what, "SURVIVED", diff
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


tally = {}
with ThreadPoolExecutor(int(opt["--jobs"])) as ex:
    for f, ln, what, res, diff in ex.map(one, enumerate(jobs)):
        tally[res] = tally.get(res, 0) + 1
        if diff is not None or not res.startswith("caught"):
            print("=====", f, ln, what, res, flush=True)
            if diff:
                print(diff, flush=True)
print(tally)
