"""P21: decimation keeps exactly the scheduled samples."""

import numpy as np
import torch

from ml4gw.transforms import Decimator
from vlib.core import family

TECHNIQUE = ("exactly-once monitor: inputs whose samples are unique ids, so "
             "every output sample names the input sample it was taken from")
NOTE = ("Schedules are built from exact rationals; the expected ids follow "
        "from them by integer arithmetic.")
RULE = ("seeded random schedules; distinct by layout, number of segments, "
        "rates, form of output and dtype of schedule")
ASSUMPTIONS = ["segment boundaries fall on input samples"]
REQUIRED = {"large": 40, "segments_checked": 1500, "joined_checked": 400,
            "split_checked": 400, "refusals": 400, "gapped": 60,
            "single_sample_segments": 60, "late_start": 60, "nested": 40}


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def schedule(ctx, layout, many=False):
    """rows (start, end, rate) with integer start and end samples"""
    fs = ctx.choice([1, 2, 7, 16, 60, 100, 128, 250, 1000, 1024, 2048])
    div = divisors(fs)
    whole = ctx.rng.random() < 0.4
    N = ctx.randint(1, 5)
    if many:
        N = ctx.choice([8, 16, 17, 33, ctx.randint(6, 70)])
    unit = fs if whole else 1
    limit = 3 if whole else max(2, min(4 * fs, 3000))
    if many and not whole:
        limit = min(limit, 600)
    rows, t = [], 0
    if layout in ("late", "any") or ctx.rng.random() < 0.15:
        t = ctx.randint(1, limit) * unit
    first = t
    for k in range(N):
        n = ctx.randint(1, limit) * unit
        step = fs // ctx.choice(div)
        if layout == "single" and k < N - 1:
            n = ctx.randint(1, max(step, unit) // unit) * unit
        if layout in ("gapped", "any") and k:
            t += ctx.randint(0 if layout == "any" else 1, limit) * unit
        rows.append([t, t + n, fs // step])
        t += n
    if layout in ("overlap", "nested"):
        span = t - first
        for r in rows[1:]:
            r[0] = first + ctx.randint(0, span // unit - 1) * unit
            r[1] = r[0] + ctx.randint(1, (t - r[0]) // unit) * unit
        if layout == "nested":
            rows[0][1] = t
        else:
            rows.sort(key=lambda r: r[0])
            rows[-1][1] = t
        if ctx.rng.random() < 0.4:  # listed in any order
            rows = [rows[k] for k in ctx.rng.permutation(len(rows))]
    return fs, rows, whole


def expected(rows, fs):
    s0 = min(r[0] for r in rows)
    return [np.arange(a - s0, b - s0, fs // r) for a, b, r in rows]


def tensor_schedule(ctx, fs, rows, whole):
    if whole:
        dt = ctx.choice([torch.int32, torch.int64, torch.float32,
                         torch.float64])
        return torch.tensor([[a // fs, b // fs, r] for a, b, r in rows],
                            dtype=dt)
    dt = ctx.choice([torch.float32, torch.float64])
    return torch.tensor([[a / fs, b / fs, r] for a, b, r in rows], dtype=dt)


@family("P21", quick=700, thorough=15000, priority=1)
def schedules(ctx):
    layout = ctx.cycle(["plain", "gapped", "single", "late", "any",
                        "overlap", "nested"])
    many = ctx.slot(20) in (6, 19)
    fs, rows, whole = schedule(ctx, layout, many)
    sched = tensor_schedule(ctx, fs, rows, whole)
    want = expected(rows, fs)
    T = max(r[1] for r in rows) - min(r[0] for r in rows)
    lead = ctx.choice([(1, 1), (2, 3), (1, 2), (4,), ()])
    if ctx.slot(20) == 13:
        lead = ctx.choice([(33,), (9, 5), (2, 17), (65, 1), (1, 128)])
    ctx.event("large", int(many))
    dtype = ctx.choice([torch.float64, torch.int64])
    ctx.params(layout=layout, fs=fs, rows=rows, dtype=str(sched.dtype),
               lead=lead)
    X = torch.arange(int(np.prod(lead, dtype=int)) * T, dtype=dtype)
    X = X.reshape(*lead, T) + 7
    Xc, sc = X.clone(), sched.clone()
    split = ctx.call(Decimator, fs, sched, split=True)
    parts = ctx.call(split, X)
    ctx.need(len(parts) == len(rows), "segments",
             f"{len(parts)} segments for {len(rows)} rows")
    for k, (p, w) in enumerate(zip(parts, want)):
        ctx.need(tuple(p.shape) == (*lead, len(w)), "segment_length",
                 f"segment {k} has shape {tuple(p.shape)}, expected "
                 f"{(*lead, len(w))}")
        ctx.equal(p, Xc[..., torch.tensor(w)], "segment_samples",
                  f"segment {k} holds other samples")
        ctx.event("segments_checked")
        ctx.event("single_sample_segments", int(len(w) == 1))
    ctx.event("split_checked")
    bad = ctx.randint(1, 3) * ctx.choice([-1, 1])
    if T + bad > 0:
        ctx.raises(ValueError, "wrong_length", split,
                   torch.zeros(*lead, T + bad), msg="input length")
        ctx.event("refusals")
    overlapping = any(b[0] < a[1] for a, b in zip(rows, rows[1:]))
    if overlapping:
        ctx.raises(ValueError, "overlap_joined", Decimator, fs, sched,
                   msg="overlapping segments cannot be joined")
        ctx.event("refusals")
    elif layout not in ("overlap", "nested"):
        joined = ctx.call(Decimator, fs, sched, *ctx.choice([(), (False,)]))
        out = ctx.call(joined, X)
        ctx.equal(out, torch.cat(list(parts), -1), "joined",
                  "joined output is not the concatenation of the segments")
        ctx.check(np.array_equal(joined.idx.numpy(), np.concatenate(want)),
                  "indices", "indices kept")
        if T + bad > 0:
            ctx.raises(ValueError, "wrong_length", joined,
                       torch.zeros(*lead, T + bad), msg="input length")
        ctx.event("joined_checked")
        again = ctx.call(joined, X)
        ctx.equal(again, out, "repeat", "a second call differs")
        if ctx.slot(4) == 0:
            fresh = Decimator(fs, torch.zeros_like(sched) + sched)
            fresh.load_state_dict(joined.state_dict())
            ctx.equal(fresh(X), out, "reload", "after a save and load")
    ctx.check(torch.equal(X, Xc) and torch.equal(sched, sc), "input_altered",
              "input or schedule altered")
    ctx.event("gapped", int(layout == "gapped"))
    ctx.event("late_start", int(rows[0][0] > 0))
    ctx.event("nested", int(layout == "nested"))
    ctx.state(layout, min(len(rows), 4), str(sched.dtype), whole,
              len({r[2] for r in rows}), len(lead))


@family("P21", quick=200, thorough=2000)
def refusals(ctx):
    fs = ctx.choice([16, 100, 128, 1000, 2048])
    kind = ctx.cycle(["indivisible", "reversed", "empty", "columns", "rank",
                      "zero_rate", "negative_rate", "too_fast", "fraction"])
    good = [[0, 1, fs], [1, 3, ctx.choice(divisors(fs))]]
    k = ctx.randint(0, 1)
    split = ctx.choice([True, False])
    dt = torch.float64
    rows = [list(r) for r in good]
    if kind == "indivisible":
        rows[k][2] = ctx.choice([d for d in range(2, fs) if fs % d])
    elif kind == "reversed":
        rows[k][0], rows[k][1] = rows[k][1], rows[k][0]
    elif kind == "empty":
        rows[k][1] = rows[k][0]
    elif kind == "columns":
        rows = [r + [1] for r in rows] if k else [r[:2] for r in rows]
    elif kind == "zero_rate":
        rows[k][2] = 0
    elif kind == "negative_rate":
        rows[k][2] = -ctx.choice(divisors(fs))
    elif kind == "too_fast":
        rows[k][2] = fs * ctx.choice([2, 3])
    elif kind == "fraction":
        rows[k][2] = ctx.choice([v for v in (3.5, 1.7, fs / 1.5, fs - 0.5)
                                 if (fs / v) % 1])
    sched = torch.tensor(rows, dtype=dt)
    if kind not in ("fraction",) and ctx.rng.random() < 0.5:
        sched = sched.long()
    if kind == "rank":
        sched = sched[0] if k else sched[None]
    ctx.params(kind=kind, fs=fs, rows=rows, split=split)
    ctx.raises(ValueError, f"refuse_{kind}", Decimator, fs, sched, split,
               msg=f"{kind} schedule {rows}")
    ctx.call(Decimator, fs, torch.tensor(good), split)
    ctx.event("refusals")
    ctx.state("refuse", kind, split)
