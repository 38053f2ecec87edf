"""Systematic mutation of ml4gw, to find what the quick checks do not see.

usage: mutate.py [--files GLOB] [--max N] [--out FILE] [--jobs J]
Every mutant is a copy of the package with one small syntactic change; the
checks of the properties anchored in the file are run on it until one fires.
Survivors are printed with their change.  A tool for building the checks; no
check uses it.
"""
import argparse
import ast
import fnmatch
import glob
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import time
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = {
    "utils/slicing": "P01 P02 P06 P03", "dataloading/in_memory": "P03",
    "dataloading/hdf5": "P04", "dataloading/chunked": "P05",
    "streaming/snapshotter": "P06", "streaming/online": "P07",
    "spectral.py": "P08 P09 P12 P32 P33 P10", "transforms/spectral": "P08 P33",
    "transforms/whitening": "P09 P10 P32 P33",
    "transforms/transform.py": "P10 P09 P12",
    "transforms/scaler": "P10 P32 P33", "transforms/snr": "P12 P10 P32 P33",
    "gw.py": "P11 P12 P28 P32 P33", "utils/interferometer": "P11",
    "cbc/taylorf2": "P13 P14 P32 P33", "cbc/phenom_d": "P13 P14 P32 P33",
    "cbc/phenom_p": "P13 P14 P32 P33", "cbc/coefficients": "P13",
    "generator": "P15 P33", "conversion": "P16 P32 P33", "cbc/utils": "P16 P15",
    "constants": "P16 P13 P17 P22 P11", "adhoc": "P17 P32 P33",
    "distributions": "P18 P33", "qtransform": "P19 P32 P33",
    "spline": "P20 P19 P32 P33", "decimator": "P21 P32 P33",
    "heterodyne": "P22 P32 P33", "integrator": "P23 P32 P33",
    "iirfilter": "P24 P32 P33", "spectrogram": "P25 P32 P33",
    "pearson": "P26 P32 P33", "augmentations": "P27",
    "transforms/waveforms": "P28 P11 P32 P33", "ssm/": "P29 P32 P33",
    "norm.py": "P30 P32 P33", "resnet": "P30 P32 P33",
    "autoencoder": "P31 P32 P33",
}


TAIL = "--tail" in sys.argv
SLOW = ("P32", "P33")


def pids(f):
    for k, v in MAP.items():
        if k in f:
            return [p for p in v.split() if TAIL or p not in SLOW] or v.split()
    return []


SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
        ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*", ast.MatMult: "*",
        ast.BitAnd: "|", ast.BitOr: "&"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"],
       ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"],
       ast.NotIn: ["in"]}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()))
    raw = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def rep(n, new, a=None, b=None):
        a, b = (a, b) if a is not None else span(n)
        old = raw[a:b].decode()
        if old == new:
            return
        out.append((n.lineno, f"{old!r:.70} -> {new!r:.70}",
                    (raw[:a] + new.encode() + raw[b:]).decode()))

    doc, ann = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr):
                doc |= {id(x) for x in ast.walk(n.body[0])}
        if isinstance(n, ast.FunctionDef):
            for x in [n.returns] + [y.annotation for y in
                                    n.args.args + n.args.kwonlyargs
                                    + [z for z in (n.args.vararg,
                                                   n.args.kwarg) if z]]:
                if x is not None:
                    ann |= {id(y) for y in ast.walk(x)}
        if isinstance(n, ast.AnnAssign):
            ann |= {id(y) for y in ast.walk(n.annotation)}
        if isinstance(n, ast.Raise):  # messages
            for c in ast.walk(n):
                if c is not n:
                    ann.add(id(c))
    for n in ast.walk(tree):
        if id(n) in doc or id(n) in ann:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value,
                                                               str):
                continue
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
                   ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
                   ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|"}[
                       type(n.op)]
            k = mid.find(sym)
            rep(n, SWAP[type(n.op)], a + k, a + k + len(sym))
        elif isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = span(left)[1], span(right)[0]
                mid = raw[a:b].decode()
                core = mid.strip().strip("()").strip()
                k = mid.find(core)
                for new in CMP.get(type(op), []):
                    rep(n, new, a + k, a + k + len(core))
                left = right
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b].decode()
            old, new = ("and", "or") if isinstance(n.op, ast.And) else (
                "or", "and")
            k = mid.find(old)
            rep(n, new, a + k, a + k + len(old))
        elif isinstance(n, ast.UnaryOp):
            a, b = span(n.operand)
            rep(n, "(" + raw[a:b].decode() + ")")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v))
            elif isinstance(v, int):
                rep(n, str(v + 1))
                if v > 0:
                    rep(n, str(v - 1))
            elif isinstance(v, float):
                rep(n, repr(v * 1.02 if v else 0.02))
            elif v is None:
                pass
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = span(n.test)
            t = raw[a:b].decode()
            rep(n, f"not ({t})", a, b)
            if isinstance(n, ast.If):
                rep(n, f"({t}) and False", a, b)
                rep(n, f"({t}) or True", a, b)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if isinstance(n, ast.Assign) and not isinstance(
                    n.targets[0], (ast.Attribute, ast.Subscript)) and not (
                    any(isinstance(x, ast.Name) and isinstance(t, ast.Name)
                        and x.id == t.id for t in n.targets
                        for x in ast.walk(n.value))):
                continue
            rep(n, "pass")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not n.args \
                    and not n.keywords:
                a, b = span(n.func.value)
                rep(n, raw[a:b].decode())  # drop a method
            if isinstance(n.func, ast.Attribute):
                pair = {"amax": "amin", "max": "min", "min": "max",
                        "minimum": "maximum", "maximum": "minimum",
                        "sin": "cos", "cos": "sin", "floor": "ceil",
                        "ceil": "floor", "round": "floor", "mean": "sum",
                        "sum": "mean", "zeros": "ones", "ones": "zeros",
                        "real": "imag", "median": "mean"}.get(n.func.attr)
                if pair:
                    b = span(n.func)[1]
                    rep(n, pair, b - len(n.func.attr.encode()), b)
            if len(n.args) > 1:
                (a, b), (c, d) = span(n.args[0]), span(n.args[1])
                if not isinstance(n.args[0], ast.Starred):
                    rep(n, raw[c:d].decode() + ", " + raw[a:b].decode(), a, d)
            for k in n.keywords:
                if k.arg is None or k.arg in ("device",):
                    continue
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
    seen, res = set(), []
    for ln, d, s in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, "x", "exec")
        except SyntaxError:
            continue
        res.append((ln, d, s))
    return res


def preload():
    import astropy.cosmology  # noqa
    import gwpy.timeseries  # noqa
    import h5py  # noqa
    import lal  # noqa
    import lalsimulation  # noqa
    import scipy.integrate  # noqa
    import scipy.interpolate  # noqa
    import scipy.signal  # noqa
    import scipy.stats  # noqa
    import torch
    import torch.utils.data  # noqa
    torch.set_num_threads(1)


def run_check(d, pid, extra, log):
    """fork a child that runs the driver on package copy d"""
    p = os.fork()
    if p == 0:
        try:
            os.setpgid(0, 0)
            mp.current_process()._config["daemon"] = False
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.path[:] = [HERE, d] + [x for x in sys.path
                                       if x not in (HERE, REPO, d)]
            os.environ["VERIF_REPO"] = d
            sys.argv = ["driver", pid, "--no-evidence", "--stop", "1",
                        *extra]
            try:
                import importlib
                rc = importlib.import_module("vlib.driver").main()
            except SystemExit as e:
                rc = e.code or 0
            except BaseException:
                import traceback
                traceback.print_exc()
                rc = 3
            sys.stdout.flush()
            os._exit(rc)
        finally:
            os._exit(3)
    t0 = time.time()
    while True:
        q, st = os.waitpid(p, os.WNOHANG)
        if q:
            return os.waitstatus_to_exitcode(st)
        if time.time() - t0 > 420:
            os.killpg(p, 9)
            os.waitpid(p, 0)
            return 99
        time.sleep(0.05)


def job(arg):
    n, f, ln, desc, src, extra = arg
    d = f"/tmp/mut/{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO + "/ml4gw", d + "/ml4gw",
                    ignore=shutil.ignore_patterns("__pycache__"))
    open(f"{d}/{f}", "w").write(src)
    rcs = {}
    for pid in pids(f):
        rc = run_check(d, pid, extra, f"{d}/log")
        if rc not in (0, 1):
            shutil.copy(f"{d}/log", "/tmp/mut/last.log")
        rcs[pid] = rc
        if rc == 1:
            break
    shutil.rmtree(d, ignore_errors=True)
    return n, f, ln, desc, rcs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", default="*")
    ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--out", default="/tmp/mutate.out")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--tail", action="store_true", help="also P32, P33")
    ap.add_argument("--again", help="only the survivors in this output")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--extra", default="--workers 1 --scale 0.5 --budget 60")
    a = ap.parse_args()
    todo = []
    for p in sorted(glob.glob(REPO + "/ml4gw/**/*.py", recursive=True)):
        f = os.path.relpath(p, REPO)
        if not pids(f) or "phenom_d_data" in f or not any(
                fnmatch.fnmatch(f, g) for g in a.files.split(",")):
            continue
        ms = mutants(open(p).read())
        random.Random(a.seed).shuffle(ms)
        todo += [(f, *m) for m in ms[: a.max]]
    if a.again:
        keep = {tuple(x[:3]) for x in map(json.loads, open(a.again))
                if x[4] != "killed"}
        todo = [t for t in todo if t[:3] in keep]
    if a.list:
        from collections import Counter
        for k, v in Counter(t[0] for t in todo).items():
            print(k, v)
        print(len(todo))
        return
    random.Random(a.seed).shuffle(todo)
    todo = [(i, *t, a.extra.split()) for i, t in enumerate(todo)]
    preload()
    os.makedirs("/tmp/mut", exist_ok=True)
    n = 0
    with open(a.out, "a") as out, mp.get_context("fork").Pool(a.jobs) as pool:
        for i, f, ln, desc, rcs in pool.imap_unordered(job, todo):
            n += 1
            r = 1 in rcs.values()
            out.write(json.dumps([f, ln, desc, rcs,
                                  "killed" if r else "SURVIVED"]) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
