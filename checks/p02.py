"""P02: sample_kernels draws genuine, in-range, independent, uniform windows."""

import numpy as np
import torch

from ml4gw.utils.slicing import sample_kernels
from vlib.core import Abort, family, to_np
from vlib.ids import id_series, layout
from vlib.stats import P_FALSE, chi2_p

TECHNIQUE = ("runtime monitor: unique sample ids recover each start; "
             "statistical monitor over long sampling histories")
NOTE = ("Start positions are recovered from sample ids and compared with the "
        "reported indices, the documented range and (chi-square, p<1e-10) "
        "uniformity and independence over thousands of draws per setting.")
RULE = (
    "seeded random rank/length/window/offset/mode; distinct by rank, mode, "
    "offset class, number of admissible starts, parity of the length"
)
ASSUMPTIONS = [
    "the admissible starts are those the repository's tests pin: up to but "
    "not including (length - window) without offset",
]
REQUIRED = {"long_series": 12, "draws_recovered": 20000, "uniformity_tests": 50,
            "independence_tests": 20}

D = [torch.float32, torch.float64, torch.int64]


def setting(ctx, small=False):
    rank = ctx.cycle([1, 2, 2, 3])
    coincident = ctx.choice([True, False])
    T = ctx.randint(4, 24 if small else 120)
    mode = ctx.choice(["none", "zero", "pos", "neg", "neg"])
    if rank == 1:
        k = ctx.randint(1, T)
        off = ctx.choice([None, 0, 2, -1])
        lo, hi = 0, max(T - k, 1)
    else:
        c = T // 2
        if mode == "none":
            k = ctx.randint(1, T)
            off, lo, hi = None, 0, max(T - k, 1)
        elif mode == "zero":
            k = ctx.randint(1, c)
            off, lo, hi = 0, c - k, c
        elif mode == "pos":
            k = ctx.randint(1, max(1, c - 1))
            off = ctx.randint(0, c - k)
            lo, hi = c - off - k, c
        else:
            m = ctx.randint(1, max(1, (c - 1)))
            # need k > 2m and k <= c + m
            if 2 * m + 1 > c + m:
                m = max(1, c - 1)
            lo_k, hi_k = 2 * m + 1, c + m
            if lo_k > hi_k:
                k, off, lo, hi = 1, None, 0, max(T - 1, 1)
            else:
                k = ctx.randint(lo_k, hi_k)
                off, lo, hi = -m, c + m - k, c - m
    return rank, coincident, T, k, off, lo, hi


def recover(ctx, out, X, k, rank, coincident, idx=None):
    """start position of every window from its ids; verdict on contiguity"""
    o, x = to_np(out), to_np(X)
    T = x.shape[-1]
    starts = []
    for b in range(o.shape[0]):
        if rank == 1:
            rows = [(o[b], x)]
        elif rank == 2:
            rows = [(o[b, c], x[c]) for c in range(x.shape[0])]
        else:
            rows = [(o[b, c], x[b, c]) for c in range(x.shape[1])]
        s = []
        for w, src in rows:
            at = np.flatnonzero(src == w[0])
            if len(at) != 1 or at[0] + k > T or not np.array_equal(
                src[at[0] : at[0] + k], w
            ):
                ctx.violate("not-a-window",
                            f"row {b}: not a contiguous slice of its source")
                raise Abort
            s.append(int(at[0]))
        starts.append(s)
    ctx.event("draws_recovered", sum(map(len, starts)))
    return np.array(starts)


def draw(ctx, rank, coincident, T, k, off, N, C=None, dtype=None, ret=None):
    C = C or ctx.randint(1, 4)
    dtype = dtype or ctx.choice(D)
    shape = {1: (T,), 2: (C, T), 3: (N, C, T)}[rank]
    X = id_series(ctx, shape, dtype)
    if dtype.is_floating_point:
        X = layout(ctx, X)
    n = N if rank < 3 else ctx.choice([None, N])
    ret = ctx.choice([True, False]) if ret is None else ret
    out = ctx.call(sample_kernels, X, k, N=n, max_center_offset=off,
                   coincident=coincident, return_idx=ret)
    idx = None
    if ret:
        ctx.need(isinstance(out, tuple) and len(out) == 2, "return-idx",
                 "expected (windows, indices)")
        out, idx = out
    want = {1: (N, k), 2: (N, C, k), 3: (N, C, k)}[rank]
    ctx.need(tuple(out.shape) == want, "shape",
             f"{tuple(out.shape)} != {want}")
    ctx.need(out.dtype == X.dtype, "dtype", f"{out.dtype}")
    s = recover(ctx, out, X, k, rank, coincident)
    if idx is not None:
        ind = to_np(idx)
        wi = (N, C) if rank == 2 and not coincident else (N,)
        ctx.need(ind.shape == wi, "idx-shape", f"{ind.shape} != {wi}")
        full = ind if ind.ndim == 2 else ind[:, None]
        ctx.check((full == s).all(), "idx-mismatch",
                  "reported indices are not the ones used")
        ctx.event("indices_compared", ind.size)
    if rank == 3 or (rank == 2 and coincident):
        ctx.check((s == s[:, :1]).all(), "coincidence",
                  "coincident windows start at different times", starts=s)
    return s


@family("P02", quick=2500, thorough=40000)
def windows(ctx):
    rank, coincident, T, k, off, lo, hi = setting(ctx)
    N = ctx.randint(1, 24)
    ctx.params(rank=rank, coincident=coincident, T=T, k=k, offset=off, N=N)
    s = draw(ctx, rank, coincident, T, k, off, N)
    # the last start without offset is tolerated (see uniform)
    top = hi if off is None or rank == 1 else hi - 1
    top = min(top, T - k)
    ctx.check((s >= lo).all() and (s <= top).all(), "out-of-range",
              f"starts must lie in [{lo}, {top}]", starts=s)
    if rank > 1 and off is not None:
        c = T // 2
        if off >= 0:
            ctx.check((s + k >= c - off).all(), "centre-offset",
                      "right edge further than offset before the centre")
            ctx.check((s < c).all() if off >= 0 else True, "centre-offset",
                      "left edge after the centre")
        else:
            ctx.check((s + k - c >= -off).all() and (c - s > -off - 0).all(),
                      "centre-offset", "centre closer to an edge than asked")
        ctx.event("centre_relations_checked", s.size)
    ctx.state(rank, coincident, None if off is None else int(np.sign(off)),
              min(hi - lo, 12), T % 2, k == T, k == 1)


@family("P02", quick=32, thorough=400, priority=1)
def long_series(ctx):
    """series longer than small integers and single precision can count, and
    many channels: sample numbers as values"""
    kind = ctx.cycle(["1d", "2d", "2d-ind", "3d", "2d-off", "2d-neg",
                      "channels", "2d-ind"])
    T = ctx.cycle([40000, 200000, 3000000, 70000, 2**25 + 40], 8)
    C, N = ctx.randint(1, 3), 2000
    if kind == "3d":
        T, N = min(T, 70000), 60
    elif kind == "channels":
        T, C, N = ctx.randint(2000, 4000), ctx.choice([17, 33, 70, 130]), 200
    elif T > 2**24:
        C = 1
    k = ctx.choice([1, 7, 200])
    co = kind in ("1d", "2d", "3d") or (kind == "2d-off" and C > 1)
    ctx.params(kind=kind, T=T, C=C, N=N, k=k)
    x = torch.arange(T, dtype=torch.int32)
    if kind == "3d":
        x = x[None, None].repeat(N, C, 1)
    elif kind != "1d":
        x = x[None].repeat(C, 1)
    off, lo, hi, c = None, 0, T - k, T // 2
    if kind == "2d-off":
        off = ctx.randint(0, c - k)
        lo, hi = c - off - k, c
    elif kind == "2d-neg":
        k = 2 * (c // 4) + 1 + ctx.randint(1, c // 3)
        off, N = -(c // 4), min(60, max(2, 10**7 // (k * C)))
        lo, hi = c - k - off, c + off
    out, idx = ctx.call(sample_kernels, x, k, N=None if kind == "3d" else N,
                        max_center_offset=off, coincident=co, return_idx=True)
    o = to_np(out).reshape(N, -1, k)
    s = o[:, :, 0].astype(int)
    ctx.need((o == s[..., None] + np.arange(k)).all(), "not-a-window",
             "a window is not contiguous")
    ctx.event("draws_recovered", s.size)
    i = to_np(idx)
    ctx.need((i.reshape(N, -1) == s).all(), "idx-mismatch",
             "reported indices are not the ones used")
    ctx.event("indices_compared", i.size)
    if co or kind == "3d":
        ctx.check((s == s[:, :1]).all(), "coincidence",
                  "coincident windows start at different times")
        s = s[:, :1]
    top = hi if off is None else hi - 1
    ctx.need((s >= lo).all() and (s <= top).all(), "out-of-range",
             f"starts must lie in [{lo}, {top}]")
    v = s.reshape(-1) - lo
    if v.size < 60:
        return
    p = chi2_p(np.bincount(v * 10 // (hi - lo + 1), minlength=10))
    ctx.check(p > P_FALSE or hi - lo < 1000, "not-uniform",
              f"starts in tenths of the range, p={p:.2g}")
    for m in (2, 3, 5):  # every residue
        p = chi2_p(np.bincount(v % m, minlength=m))
        ctx.check(p > P_FALSE or hi - lo < 1000, "not-uniform",
                  f"starts modulo {m}, p={p:.2g}")
        ctx.event("uniformity_tests")
    if not co and s.shape[1] > 1 and hi - lo > 1000:
        ctx.check(all((s[:, a] != s[:, b]).any() for a in range(s.shape[1])
                      for b in range(a)), "channels-dependent",
                  "two channels share every start")
    ctx.event("long_series")
    ctx.state("long", kind, T, k)


@family("P02", quick=140, thorough=1500)
def uniform(ctx):
    for _ in range(200):
        rank, coincident, T, k, off, lo, hi = setting(ctx, small=True)
        if 2 <= hi - lo <= 20:
            break
    N = 3000
    C = ctx.randint(1, 3)
    ctx.params(rank=rank, coincident=coincident, T=T, k=k, offset=off, C=C)
    dtype = torch.float64
    s = draw(ctx, rank, coincident, T, k, off, N, C=C, dtype=dtype)
    K = hi - lo
    last = hi  # T - k when no offset
    free = off is None or rank == 1
    if free:
        n_last = int((s == last).sum())
        if n_last == 0:
            ctx.check(False, "last-window-never-drawn",
                      f"start {last} of 0..{last} never drawn in {s.size}")
        else:
            K += 1
    ctx.check((s >= lo).all() and (s < lo + K).all(), "out-of-range",
              f"starts outside [{lo}, {lo + K})")
    cols = s[:, :1] if (coincident or rank != 2) else s
    for c in range(cols.shape[1]):
        counts = np.bincount(cols[:, c] - lo, minlength=K)[:K]
        p = chi2_p(counts)
        ctx.check(p > P_FALSE, "not-uniform",
                  f"channel {c}: start counts {counts.tolist()} p={p:.2g}")
        ctx.check((counts > 0).all(), "start-never-drawn",
                  f"channel {c}: counts {counts.tolist()}")
        ctx.event("uniformity_tests")
    # rows must be drawn independently of each other
    q = min(K, 5)
    b = ((cols[:, 0] - lo) * q // K)
    pairs = b[0 : N - 1 : 2] * q + b[1:N:2]
    marg = np.bincount(b, minlength=q) / N
    p = chi2_p(np.bincount(pairs, minlength=q * q), np.outer(marg, marg).ravel())
    ctx.check(p > P_FALSE, "rows-dependent",
              f"successive windows are not independent, p={p:.2g}")
    ctx.event("independence_tests")
    if rank == 2 and not coincident and C > 1:
        for c in range(1, C):
            b2 = (s[:, c] - lo) * q // K
            m2 = np.bincount(b2, minlength=q) / N
            p = chi2_p(np.bincount(b * q + b2, minlength=q * q),
                       np.outer(marg, m2).ravel())
            ctx.check(p > P_FALSE, "channels-dependent",
                      f"channels 0 and {c} are not independent, p={p:.2g}")
            ctx.event("independence_tests")
    ctx.state("uniform", rank, coincident,
              None if off is None else int(np.sign(off)), K)


@family("P02", quick=200, thorough=2000)
def whole_series(ctx):
    """window exactly as long as the series: the only window is the series"""
    rank = ctx.cycle([1, 2, 3])
    T, N = ctx.randint(1, 40), ctx.randint(1, 6)
    co = ctx.choice([True, False])
    ctx.params(rank=rank, T=T, N=N, coincident=co)
    s = draw(ctx, rank, co, T, T, None, N)
    ctx.check((s == 0).all(), "out-of-range", "start must be 0")
    ctx.state("whole", rank, co, T == 1)


@family("P02", quick=300, thorough=3000)
def refusals(ctx):
    T = ctx.randint(10, 60)
    c = T // 2
    k = ctx.randint(2, c - 1)
    B, C = ctx.randint(2, 5), ctx.randint(1, 3)
    x2, x3 = torch.zeros(C, T), torch.zeros(B, C, T)
    m = (k + 1) // 2 + ctx.randint(0, 2)
    cases = {
        "too-short-1d": (torch.zeros(k - 1), k, dict(N=3)),
        "too-short-2d": (torch.zeros(C, k - 1), k, dict(N=3)),
        "too-short-3d": (torch.zeros(B, C, k - 1), k, {}),
        "4d": (x3[None], k, dict(N=1)),
        "no-N-1d": (torch.zeros(T), k, {}),
        "no-N-2d": (x2, k, {}),
        "wrong-N-3d": (x3, k, dict(N=B + ctx.choice([-1, 1]))),
        "offset-too-large": (x2, k, dict(N=3, max_center_offset=c - k + 1)),
        "offset-too-large-3d": (x3, k, dict(max_center_offset=c - k + 1)),
        "offset-too-negative": (x2, k, dict(N=3, max_center_offset=-m)),
        "kernel-over-half": (x2, c + 1, dict(N=2, max_center_offset=0)),
    }
    name = ctx.cycle(sorted(cases))
    X, kk, kw = cases[name]
    if ctx.slot(2):
        kw = {**kw, "coincident": False}
    ctx.params(case=name, T=T, k=kk, kw=str(kw))
    ctx.raises(ValueError, "not-refused", sample_kernels, X, kk, msg=name, **kw)
    ctx.state(name)
