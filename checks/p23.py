"""P23: integrators equal their step-by-step recurrences."""

import numpy as np
import torch

from ml4gw.transforms.integrator import LeakyIntegrator, TophatIntegrator
from vlib.core import family

TECHNIQUE = ("trace checker: each output sequence is replayed against a "
             "sequential model of the recurrence, exactly on dyadic data")
NOTE = ("The sequential models step through each series in rationals-exact "
        "float64; later samples are replaced to observe causality.")
RULE = ("seeded random histories and parameters; distinct by mode, sign of "
        "the bound, hits of the bound, rank, dtype, window against length")
ASSUMPTIONS = ["float rounding within 4 ulp per step of the largest partial sum"]
REQUIRED = {"large": 50, "leaky_steps": 20000, "bound_hits": 4000, "ties": 500,
            "exact_leaky": 300, "tophat_steps": 12000, "causality": 100,
            "refusals": 15, "positive_bound": 60, "negative_bound": 60}


def leaky_model(x, thr, decay, lb, mode):
    """(output, number of steps at the bound, ties)"""
    y = np.zeros_like(x)
    acc = np.zeros(x.shape[:-1])
    hits = ties = 0
    for t in range(x.shape[-1]):
        v = x[..., t]
        up = v >= thr
        ties += int((v == thr).sum())
        acc = acc + np.where(up, 1.0 if mode == "count" else v, -decay)
        hits += int((acc < lb).sum())
        acc = np.maximum(acc, lb)
        y[..., t] = acc
    return y, hits, ties


def shape(ctx, top=200):
    big = {4: "length", 11: "batch"}.get(ctx.slot(20))
    if big:
        ctx.event("large")
    if big == "length":
        return (*ctx.choice([(), (1,), (3,), (2, 3)]),
                ctx.choice([1024, 2049, 4096, ctx.randint(500, 6000)]))
    if big == "batch":
        return (*ctx.choice([(33,), (65,), (3, 33), (9, 17), (2, 1, 64)]),
                ctx.randint(1, 60))
    lead = ctx.choice([(), (1,), (3,), (2, 3), (2, 1, 2)])
    return (*lead, ctx.choice([1, 2, ctx.randint(1, top), ctx.randint(1, 20)]))


@family("P23", quick=500, thorough=12000, priority=1)
def leaky(ctx):
    mode = ctx.cycle(["count", "score"])
    sign = ctx.cycle([0, 0, -1, 1], 2)
    exact = ctx.slot(3) != 0
    shp = shape(ctx)
    dtype = ctx.choice([torch.float32, torch.float32, torch.float64])
    kind = ctx.choice(["noise", "bursts", "quiet", "loud", "levels",
                       "mixed"])
    x = ctx.rng.standard_normal(shp)
    if kind == "mixed":  # each series of its own sort
        x = x + ctx.rng.integers(-3, 4, (*shp[:-1], 1)).astype(float)
    if kind == "bursts":
        x = x + 5 * (ctx.rng.random(shp) < 0.1)
    if kind == "quiet":
        x = x - 3
    if kind == "loud":
        x = x + 3
    if kind == "levels":
        x = ctx.rng.integers(-2, 3, shp).astype(float)
    thr = ctx.choice([0.0, 1.0, 0.5, -0.5, ctx.uniform(-2, 2)])
    decay = ctx.choice([0.0, 0.25, 1.0, 2.0, ctx.uniform(0, 3)])
    lb = sign * ctx.choice([0.5, 1.0, 4.0, ctx.uniform(0, 10)])
    if exact:
        q = lambda v: np.round(np.asarray(v) * 64) / 64
        x, thr, decay, lb = q(x), float(q(thr)), float(q(decay)), float(q(lb))
    if ctx.rng.random() < 0.1:
        thr = int(round(thr))
        lb = int(round(lb))
    X = torch.tensor(x, dtype=dtype)
    x = X.double().numpy()
    ctx.params(mode=mode, thr=thr, decay=decay, lb=lb, shape=shp,
               dtype=str(dtype), kind=kind, exact=exact)
    m = ctx.call(LeakyIntegrator, thr, decay, lb, mode)
    Xc = X.clone()
    out = ctx.call(m, X)
    ctx.check(torch.equal(X, Xc), "input_altered", "input altered")
    if dtype == torch.float32:
        # the threshold is compared at the input's precision
        near = np.abs(x - thr) < 1e-6 * (1 + abs(thr))
        if not exact and near.any() and np.any(x[near] != thr):
            ctx.event("ambiguous")
            return
    want, hits, ties = leaky_model(x, thr, decay, lb, mode)
    ctx.need(tuple(out.shape) == shp and out.dtype == dtype, "shape",
             f"{tuple(out.shape)} {out.dtype}")
    if exact:
        ctx.check(np.array_equal(out.double().numpy(), want), "recurrence",
                  f"{mode} integral differs from its recurrence: "
                  f"{out.reshape(-1, shp[-1])[0][:6].tolist()} expected "
                  f"{want.reshape(-1, shp[-1])[0][:6].tolist()}", x=x, want=want,
                  got=out)
        ctx.event("exact_leaky")
    else:
        e = 6e-8 if dtype == torch.float32 else 1.2e-16
        size = np.abs(np.cumsum(np.where(x >= thr, 1 if mode == "count" else x,
                                         -decay), -1)).max() + abs(lb) + 1
        ctx.close(out, want, "recurrence",
                  f"{mode} integral differs from its recurrence", rtol=0,
                  atol=4 * e * shp[-1] * size)
    ctx.check(bool((out >= lb - 1e-5 * (1 + abs(lb)) * shp[-1]).all()),
              "bound", "below the lower bound")
    ctx.event("leaky_steps", int(np.prod(shp)))
    ctx.event("bound_hits", hits)
    ctx.event("ties", ties)
    ctx.event("positive_bound", int(lb > 0))
    ctx.event("negative_bound", int(lb < 0))
    ctx.state("leaky", mode, int(np.sign(lb)), hits > 0, ties > 0, len(shp),
              str(dtype), exact, decay == 0)


@family("P23", quick=300, thorough=6000)
def tophat(ctx):
    fs = ctx.choice([1, 2, 4, 16, 100, 128])
    w = ctx.choice([0, 1, 2, ctx.randint(0, 60), ctx.randint(0, 300)])
    if ctx.slot(20) == 4:
        w = ctx.choice([w, ctx.randint(300, 5000)])
    L = w / fs
    shp = shape(ctx)
    dtype = ctx.choice([torch.float32, torch.float64])
    exact = ctx.rng.random() < 0.5
    x = ctx.rng.integers(-8, 9, shp).astype(float) if exact else (
        ctx.rng.standard_normal(shp) * ctx.choice([1, 1e4]) +
        ctx.choice([0, 0, 50]))
    X = torch.tensor(x, dtype=dtype)
    x = X.double().numpy()
    ctx.params(fs=fs, window=w + 1, shape=shp, dtype=str(dtype))
    m = ctx.call(TophatIntegrator, fs, L)
    if dtype == torch.float64:
        m = m.double()
    Xc = X.clone()
    out = ctx.call(m, X)
    ctx.check(torch.equal(X, Xc), "input_altered", "input altered")
    W = w + 1
    p = np.concatenate([np.zeros((*shp[:-1], W - 1)), x], -1)
    want = np.lib.stride_tricks.sliding_window_view(p, W, axis=-1).sum(-1) / W
    e = 1.2e-7  # the window itself is kept in single precision
    ctx.close(out, want, "mean", "moving mean", rtol=0,
              atol=e * (2 + W**0.5) * max(np.abs(x).max(), 1e-30) +
              4 * e * np.abs(want).max(), dtype=dtype)
    ctx.event("tophat_steps", int(np.prod(shp)))
    # causality: later samples, however wild, change nothing
    k = ctx.randint(0, shp[-1] - 1)
    Y = X.clone()
    Y[..., k + 1 :] = ctx.choice([1e30, float("nan"), float("inf"), 0.0])
    later = ctx.call(m, Y)
    ctx.close(later[..., : k + 1], out[..., : k + 1], "causality",
              f"later samples change outputs up to {k}", rtol=1e-6,
              atol=1e-6 * float(X.abs().max()))
    ctx.event("causality")
    ctx.state("tophat", min(W, 3), W > shp[-1], len(shp), str(dtype), exact)


@family("P23", quick=100, thorough=1500)
def leading(ctx):
    """Every leading index is independent of the others"""
    shp = (2, 3, ctx.randint(1, 40))
    X = torch.tensor(np.round(ctx.rng.standard_normal(shp) * 8) / 8)
    which = ctx.cycle(["leaky", "tophat"])
    mode = ctx.choice(["count", "score"])
    if which == "leaky":
        m = ctx.call(LeakyIntegrator, 0.5, 0.25, ctx.choice([0.0, -1.0]), mode)
    else:
        m = ctx.call(TophatIntegrator, 4, ctx.randint(0, 6)).double()
    ctx.params(which=which, mode=mode, shape=shp)
    full = ctx.call(m, X)
    Y = torch.full_like(X, ctx.choice([float("nan"), 1e9, -1e9]))
    i, j = ctx.randint(0, 1), ctx.randint(0, 2)
    Y[i, j] = X[i, j]
    ctx.close(ctx.call(m, Y)[i, j], full[i, j], "independence",
              "another series leaks in", rtol=1e-12, atol=1e-12)
    ctx.close(ctx.call(m, X[i, j]), full[i, j], "rank", "one series alone",
              rtol=1e-12, atol=1e-12)
    ctx.close(ctx.call(m, X.transpose(0, 1)), full.transpose(0, 1), "order",
              "leading axes exchanged", rtol=1e-12, atol=1e-12)
    # a past is a prefix
    k = ctx.randint(1, shp[-1])
    ctx.close(ctx.call(m, X[..., :k].contiguous()), full[..., :k], "prefix",
              "a prefix of the history", rtol=1e-12, atol=1e-12)
    ctx.event("causality")
    ctx.state("leading", which, mode)


@family("P23", quick=20, thorough=40)
def refusals(ctx):
    bad = ctx.choice(["", "sum", "Count", None, "scores"])
    ctx.params(bad=bad)
    ctx.raises(ValueError, "mode", LeakyIntegrator, 0.5, 1.0, 0.0, bad,
               msg=f"mode {bad!r}")
    ctx.event("refusals")
    ctx.state("refuse", bad)
