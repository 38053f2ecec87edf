"""P27: random inversion and reversal of whole series."""

import itertools

import numpy as np
import torch

from ml4gw.augmentations import SignalInverter, SignalReverser
from vlib import stats
from vlib.core import family

TECHNIQUE = ("value-identity monitor: every series carries unique values, so "
             "the change made to it is read off exactly; statistical "
             "monitors over long call histories for rate and independence")
NOTE = ("Statistical verdicts use exact tests with a false alarm "
        "probability of 1e-10 each.")
RULE = ("seeded random shapes, dtypes, probabilities and call histories; "
        "distinct by module, rank, dtype, probability and shape class")
ASSUMPTIONS = ["torch's random generator is sound"]
REQUIRED = {"series_checked": 10000, "changed": 2000, "untouched": 2000,
            "certain": 40, "never": 40, "rate_tests": 20, "pair_tests": 60,
            "one_dimensional": 15, "views": 20}

MODULES = {"invert": SignalInverter, "reverse": SignalReverser}
DTYPES = [torch.float32, torch.float64, torch.float32, torch.float16,
          torch.int64, torch.complex64]


def unique(ctx, shape, dtype):
    """series with values that identify the series and the sample"""
    n = int(np.prod(shape))
    if dtype == torch.float16:
        v = torch.arange(1, n + 1) % 2000 + 1.0
    else:
        v = torch.arange(1, n + 1, dtype=torch.float64)
        v = v + (torch.rand(n, dtype=torch.float64) * 0.25 if
                 dtype.is_floating_point else 0)
    if dtype == torch.complex64:
        v = v + 1j * v.flip(0)
    return v.to(dtype).reshape(shape)


def change(op, x):
    return -x if op == "invert" else x.flip(-1)


@family("P27", quick=400, thorough=8000, priority=1)
def whole_series(ctx):
    op = ctx.cycle(["invert", "reverse"])
    rank = ctx.choice([1, 2, 2, 3, 3, 4, 5])
    T = ctx.choice([1, 2, 3, ctx.randint(2, 50), ctx.randint(50, 300)])
    lead = tuple(ctx.randint(1, 6) for _ in range(rank - 1))
    prob = ctx.choice([0, 1, 0.0, 1.0, 0.5, 0.5, ctx.uniform(0, 1)])
    dtype = ctx.choice(DTYPES)
    ctx.params(op=op, shape=(*lead, T), prob=prob, dtype=str(dtype))
    # one half is the default
    m = ctx.call(MODULES[op], *([] if prob == 0.5 and ctx.slot(3) else [prob]))
    if ctx.rng.random() < 0.2:
        m.eval()
    x = unique(ctx, (*lead, T), dtype)
    layout = ctx.choice(["plain", "plain", "transposed", "slice", "strided"])
    if layout == "transposed" and rank > 2:
        x = x.transpose(0, 1).contiguous().transpose(0, 1)
    elif layout == "slice":
        big = torch.zeros(*lead, T + 4, dtype=dtype)
        big[..., 2:-2] = x
        x, frame = big[..., 2:-2], big
    elif layout == "strided":
        big = torch.zeros(*lead, 2 * T, dtype=dtype)
        big[..., ::2] = x
        x, frame = big[..., ::2], big
    if layout != "plain":
        ctx.event("views")
    if dtype.is_floating_point and ctx.rng.random() < 0.15:
        x.reshape(-1)[0]  # views of odd layouts stay views
        x[..., 0] = ctx.choice([float("inf"), 0.0, float("nan")])
    for _ in range(ctx.randint(1, 4)):
        before = x.clone()
        out = ctx.call(m, x)
        ctx.need(tuple(out.shape) == (*lead, T) and out.dtype == dtype,
                 "shape", f"{tuple(out.shape)} {out.dtype}")
        a = before.reshape(-1, T)
        b = out.reshape(-1, T)
        for i in range(a.shape[0]):
            same = torch.allclose(a[i], b[i], rtol=0, atol=0, equal_nan=True)
            other = torch.allclose(change(op, a[i]), b[i], rtol=0, atol=0,
                                   equal_nan=True)
            if not (same or other):
                ctx.violate("series_mangled", f"series {i} is neither kept "
                            f"nor changed as a whole",
                            before=a[i][:6].tolist(), after=b[i][:6].tolist())
            ctx.event("series_checked")
            if same != other:
                ctx.event("untouched" if same else "changed")
                if prob == 0:
                    ctx.check(same, "never", "changed at probability zero")
                if prob == 1:
                    ctx.check(other, "always", "kept at probability one")
        if prob in (0, 1):
            ctx.event("never" if prob == 0 else "certain")
        if layout in ("slice", "strided"):
            rest = frame[..., :2] if layout == "slice" else frame[..., 1::2]
            ctx.check(not rest.any(), "outside", "values outside the view "
                      "handed in were altered")
        x = out
    if rank == 1:
        ctx.event("one_dimensional")
    ctx.state("whole", op, rank, str(dtype), prob in (0, 1), layout, T < 4)


def history(ctx, m, op, lead, calls):
    """(calls, *lead) boolean: what was changed in each call"""
    base = unique(ctx, (*lead, 3), torch.float64)
    out = []
    for _ in range(calls):
        o = ctx.call(m, base.clone())
        out.append((o[..., 0] != base[..., 0]).numpy())
    return np.array(out)


@family("P27", quick=36, thorough=200, priority=1)
def rate(ctx):
    """rate per position, and independence between positions and calls"""
    op = ctx.cycle(["invert", "reverse"])
    lead = ctx.choice([(4, 3), (2, 2), (6,), (1, 4), (3, 2, 2), (5, 1),
                       (2, 7), (1, 10), (12,), (9, 1), (2, 2, 3)])
    prob = ctx.cycle([0.5, 0.1, 0.9, 0.25, 0.5, ctx.uniform(0.05, 0.95)], 2)
    calls = 1500 if ctx.tier == "quick" else 4000
    ctx.params(op=op, lead=lead, prob=prob)
    m = MODULES[op](*([] if prob == 0.5 else [prob]))
    h = history(ctx, m, op, lead, calls).reshape(calls, -1)
    for j in range(h.shape[1]):
        p = stats.binom_p(int(h[:, j].sum()), calls, prob)
        ctx.check(p > stats.P_FALSE, "rate", f"series {j} changed "
                  f"{int(h[:, j].sum())} times of {calls} at {prob}")
        ctx.event("rate_tests")
        # successive calls
        p = joint(h[:-1:2, j], h[1::2, j], prob)
        ctx.check(p > stats.P_FALSE, "calls_independent",
                  f"series {j} depends on the call before it")
    for a, b in itertools.combinations(range(h.shape[1]), 2):
        p = joint(h[:, a], h[:, b], prob)
        ctx.check(p > stats.P_FALSE, "series_independent",
                  f"series {a} and {b} are changed together")
        ctx.event("pair_tests")
    # number changed per call
    p = stats.binom_p(int(h.sum()), h.size, prob)
    ctx.check(p > stats.P_FALSE, "rate", f"overall rate {h.mean()} at {prob}")
    ctx.state("rate", op, lead, round(prob, 1))


def joint(a, b, prob):
    if len(a) * min(prob, 1 - prob) ** 2 < 25:
        # too few for chi square: count the rarer of "both" outcomes
        rare = a & b if prob < 0.5 else ~a & ~b
        return stats.binom_p(int(rare.sum()), len(a),
                             min(prob, 1 - prob) ** 2)
    k = np.bincount(2 * a.astype(int) + b.astype(int), minlength=4)
    q = np.array([(1 - prob) ** 2, prob * (1 - prob), prob * (1 - prob),
                  prob**2])
    return stats.chi2_p(k, q)


@family("P27", quick=24, thorough=120)
def large(ctx):
    """one call on many series"""
    op = ctx.cycle(["invert", "reverse"])
    prob = ctx.choice([0.5, 0.02, 0.3, 0.98])
    B, C = ctx.choice([(4000, 2), (2000, 5), (1, 9000), (9000, 1)])
    ctx.params(op=op, prob=prob, B=B, C=C)
    base = unique(ctx, (B, C, 4), torch.float64)
    out = ctx.call(MODULES[op](prob), base.clone())
    h = out[..., 0] != base[..., 0]
    want = torch.where(h[..., None], change(op, base), base)
    ctx.equal(out, want, "series_mangled", "a series is changed in part")
    n = h.numel()
    p = stats.binom_p(int(h.sum()), n, prob)
    ctx.check(p > stats.P_FALSE, "rate", f"{int(h.sum())} of {n} at {prob}")
    if C > 1 and B > 1:
        p = joint(h[:, 0].numpy(), h[:, 1].numpy(), prob)
        ctx.check(p > stats.P_FALSE, "channels_independent",
                  "channels of one element are changed together")
        ctx.event("pair_tests")
    if B > 1:
        p = joint(h[:-1:2, 0].numpy(), h[1::2, 0].numpy(), prob)
        ctx.check(p > stats.P_FALSE, "elements_independent",
                  "neighbouring elements are changed together")
    ctx.event("rate_tests")
    ctx.event("series_checked", n)
    ctx.state("large", op, prob, B, C)
