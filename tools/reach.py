"""What values a check drives each function of ml4gw with.

usage: reach.py PID [scale]
Runs the check's quick cases in one process with a profile hook that records,
for every call of a function of ml4gw, the range of each argument: ranks,
types, sizes and layout of tensors, range of numbers, other values as seen.
Used to find sizes, options and types that no workload reaches.
"""
import collections
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]


class Rec:
    def __init__(self):
        self.n = 0
        self.kinds = collections.Counter()
        self.lo, self.hi = None, None
        self.dims = {}
        self.vals = collections.Counter()

    def add(self, v, torch):
        self.n += 1
        if isinstance(v, torch.Tensor):
            t = str(v.dtype).split(".")[-1]
            self.kinds[f"{t}/{v.ndim}d" + ("" if v.is_contiguous() else "/nc")
                       + ("/grad" if v.requires_grad else "")] += 1
            for i, s in enumerate(reversed(v.shape)):
                a, b = self.dims.get(i, (s, s))
                self.dims[i] = (min(a, s), max(b, s))
        elif isinstance(v, bool) or v is None or isinstance(v, str):
            self.vals[repr(v)[:20]] += 1
        elif isinstance(v, (int, float)):
            self.kinds[type(v).__name__] += 1
            self.lo = v if self.lo is None else min(v, self.lo)
            self.hi = v if self.hi is None else max(v, self.hi)
        elif isinstance(v, (list, tuple, dict)):
            self.kinds[f"{type(v).__name__}[{len(v)}]"] += 1
        else:
            self.kinds[type(v).__name__] += 1

    def __str__(self):
        o = []
        if self.dims:
            o.append("sizes " + " ".join(
                f"-{i + 1}:{a}..{b}" for i, (a, b) in sorted(
                    self.dims.items())))
        if self.lo is not None:
            o.append(f"{self.lo:.4g}..{self.hi:.4g}")
        o += [f"{k}x{n}" for k, n in self.kinds.most_common(9)]
        o += [f"{k}x{n}" for k, n in self.vals.most_common(8)]
        return ", ".join(o)


def main():
    pid, scale = sys.argv[1], float((sys.argv + ["0.5"])[2])
    from vlib import driver
    from vlib.core import REPO, run_case
    mod, fams = driver.load(pid)
    import torch
    root = REPO + "/ml4gw"
    recs = collections.OrderedDict()

    def hook(frame, event, arg):
        if event != "call":
            return
        co = frame.f_code
        if not co.co_filename.startswith(root) or co.co_name[0] == "<":
            return
        key = (co.co_filename[len(root) + 1:], co.co_qualname)
        d = recs.setdefault(key, {})
        names = co.co_varnames[: co.co_argcount + co.co_kwonlyargcount
                               + bool(co.co_flags & 4)
                               + bool(co.co_flags & 8)]
        for a in names:
            if a not in ("self", "cls") and a in frame.f_locals:
                d.setdefault(a, Rec()).add(frame.f_locals[a], torch)

    import threading
    sys.setprofile(hook)
    threading.setprofile(hook)
    bad = 0
    for f in fams:
        for i in range(max(1, int(f.quick * scale))):
            bad += bool(run_case(pid, f, i, 1, "quick")["violations"])
    sys.setprofile(None)
    threading.setprofile(None)
    print(f"== {pid}: {bad} violations")
    for (fn, q), d in sorted(recs.items()):
        print(f"{fn}:{q}")
        for a, r in d.items():
            print(f"    {a}: {r}")


main()
