"""P05: chunked sampling draws true windows from the chunk in turn."""

import itertools

import numpy as np
import torch

from ml4gw.dataloading import ChunkedTimeSeriesDataset
from vlib.core import family, to_np
from vlib.stats import P_FALSE, bins_p, chi2_p, lag_p

TECHNIQUE = ("history checker: the log of chunks handed out against the log "
             "of batches received, unique sample ids, statistical monitor")
NOTE = ("Every window is traced to (chunk, element, channel, offset) through "
        "sample ids and must come from the chunk in turn; positions and "
        "elements are tested for coverage and uniformity (p<1e-10).")
RULE = (
    "seeded random sequences of chunk shapes, modes, batch sizes; distinct "
    "by mode, shape-change pattern, one-window chunks, stream kind"
)
ASSUMPTIONS = ["CPU chunks"]
REQUIRED = {"large": 8, "windows_identified": 3000, "shape_changes_seen": 100,
            "uniformity_tests": 20, "huge": 2}


class Stream:
    """hands out chunks, keeping the log of what it gave"""

    def __init__(self, ctx, shapes, dtype, reuse=False, view=False):
        self.log, self.chunks, n = 0, [], 1
        self.table = {}
        tab = [(-1, -1, -1, -1)]
        for j, (N, C, T) in enumerate(shapes):
            ids = np.arange(n, n + N * C * T)
            n += N * C * T
            a, b, c = np.unravel_index(np.arange(N * C * T), (N, C, T))
            tab += list(zip([j] * len(ids), a, b, c))
            x = torch.from_numpy(ids.reshape(N, C, T).astype(float)).to(dtype)
            if view:
                big = torch.zeros(N, C, T + 3, dtype=dtype)
                big[..., :T] = x
                x = big[..., :T]
            self.chunks.append(x)
        self.tab = np.array(tab)
        self.reuse = reuse
        self.buf = None
        self.handed = 0

    def __len__(self):
        return len(self.chunks)

    def __iter__(self):
        self.handed = 0
        for c in self.chunks:
            self.handed += 1
            if self.reuse:
                if self.buf is None or self.buf.shape != c.shape:
                    self.buf = torch.empty_like(c)
                self.buf.copy_(c)
                yield self.buf
                self.buf.fill_(0)  # the producer recycles its buffer
            else:
                yield c


def identify(ctx, x, st, k, B, co, chunk):
    ctx.need(isinstance(x, torch.Tensor) and x.ndim == 3, "batch-shape",
             str(getattr(x, "shape", type(x))))
    C = st.chunks[chunk].shape[1]
    ctx.need(tuple(x.shape) == (B, C, k), "batch-shape",
             f"{tuple(x.shape)} != {(B, C, k)}")
    ctx.need(x.dtype == st.chunks[chunk].dtype, "dtype", str(x.dtype))
    a = to_np(x)
    i = np.rint(a).astype(int)
    ctx.need((i > 0).all() and (i < len(st.tab)).all() and (a == i).all(),
             "foreign-sample", "a sample is not in the stream")
    t = st.tab[i]  # B C k (chunk, element, channel, offset)
    ctx.need((t[..., 0] == chunk).all(), "wrong-chunk",
             f"windows from chunk {sorted(set(t[..., 0].ravel().tolist()))} "
             f"while chunk {chunk} is in turn")
    ctx.need((t[..., 1] == t[..., :1, 1]).all(), "not-a-window",
             "window mixes elements")
    ctx.need((t[..., 2] == np.arange(C)[None, :, None]).all(),
             "wrong-channel", "window of another channel")
    ctx.need((t[..., 3] == t[..., :1, 3] + np.arange(k)).all(),
             "not-a-window", "window is not contiguous")
    e, s = t[:, :, 0, 1], t[:, :, 0, 3]
    if co:
        ctx.need((e == e[:, :1]).all(), "coincidence",
                 "coincident channels from different elements")
        ctx.need((s == s[:, :1]).all(), "coincidence",
                 "coincident channels at different times")
    ctx.event("windows_identified", e.size)
    return e, s


@family("P05", quick=1200, thorough=25000)
def streams(ctx):
    co = ctx.cycle([True, False])
    k = ctx.randint(1, 20)
    B = ctx.choice([1, 2, ctx.randint(1, 16)])
    per = ctx.randint(1, 4)
    n = ctx.randint(1, 5)
    vary = ctx.choice(["none", "T", "N", "C", "all"])
    base = [ctx.randint(1, 5), ctx.randint(1, 4),
            k + ctx.choice([0, 1, ctx.randint(0, 40)])]
    shapes = []
    for _ in range(n):
        s = list(base)
        if vary in ("T", "all"):
            s[2] = k + ctx.choice([0, 1, ctx.randint(0, 40)])
        if vary in ("N", "all"):
            s[0] = ctx.randint(1, 5)
        if vary in ("C", "all"):
            s[1] = ctx.randint(1, 4)
        shapes.append(tuple(s))
    if ctx.rng.random() < 0.03:
        what = ctx.choice(["N", "C", "T", "B", "per"])
        s = list(shapes[-1])
        if what in "NCT":
            s["NCT".index(what)] += ctx.choice([60, 130, 300]) * (
                250 if what == "T" else 1)
        elif what == "B":
            B = ctx.choice([65, 257, 600])
        else:
            per = ctx.choice([33, 70])
        shapes[-1] = tuple(s)
        ctx.event("large")
    dtype = ctx.choice([torch.float32, torch.float64])
    kind = ctx.choice(["list", "stream", "reuse", "generator", "view"])
    st = Stream(ctx, shapes, dtype, kind == "reuse", kind == "view")
    src = {"list": st.chunks, "generator": iter(st)}.get(kind, st)
    ctx.params(coincident=co, k=k, B=B, per=per, shapes=shapes, kind=kind)
    ds = ctx.call(ChunkedTimeSeriesDataset, src, k, B, per,
                  **({} if co and ctx.slot(2) else dict(coincident=co)))
    if kind != "generator":
        ctx.check(len(ds) == n * per, "length", f"{len(ds)} != {n * per}")
    for _ in range(1 if kind == "generator" else 2):
        got, held = 0, []
        for x in ds:
            ctx.need(got < n * per, "number-of-batches",
                     f"more than the announced {n * per} batches")
            identify(ctx, x, st, k, B, co, got // per)
            held.append((x, x.clone(), got // per))
            got += 1
        ctx.check(got == n * per, "number-of-batches",
                  f"{got} batches, announced {n * per}")
        for x, c, _ in held:
            ctx.check(torch.equal(x, c), "batch-changed-later",
                      "a batch handed out earlier changed")
    ctx.event("streams_checked")
    ctx.event("shape_changes_seen",
              sum(a != b for a, b in zip(shapes, shapes[1:])))
    ctx.state(co, vary, n > 1, min(s[2] for s in shapes) == k, kind, B == 1)


def pair_p(a, b, m):
    """independence of two uniform draws from m values"""
    h = min(m, 12)
    w = np.bincount(np.arange(m) * h // m, minlength=h) / m
    return chi2_p(np.bincount(a * h // m * h + b * h // m, minlength=h * h),
                  np.outer(w, w).ravel())


@family("P05", quick=6, thorough=16, priority=1)
def huge(ctx):
    """chunks with more samples than single precision can count"""
    co = ctx.cycle([True, False])
    kind = ["long", "wide", "tight"][ctx.slot(3)]
    k = ctx.randint(2, 40)
    if kind == "tight":  # one position per element: no room for an error
        C = ctx.choice([3, 5, 7])
        N = 18_000_003 // (C * k)
    elif kind == "long":
        N, C = ctx.randint(2, 5), ctx.randint(2, 4)
    else:
        N, C = ctx.randint(200, 500), ctx.randint(2, 9)
    T = ctx.randint(17_000_000, 21_000_000) // (N * C)
    T = k if kind == "tight" else T
    x = torch.arange(N * C * T, dtype=torch.int32).view(N, C, T)
    B, per = 400, 3
    ctx.params(coincident=co, k=k, shape=(N, C, T))
    ds = ctx.call(ChunkedTimeSeriesDataset, [x], k, B, per, co)
    E, S = [], []
    for y in ds:
        a = to_np(y).astype(np.int64)
        ctx.need(a.shape == (B, C, k), "batch-shape", str(a.shape))
        ctx.need((a == a[..., :1] + np.arange(k)).all(), "not-a-window",
                 "window is not contiguous")
        e, c, s = np.unravel_index(a[..., 0], (N, C, T))
        ctx.need((c == np.arange(C)).all(), "wrong-channel",
                 "window of another channel")
        ctx.need((s + k <= T).all(), "not-a-window", "window leaves its row")
        if co:
            ctx.need((e == e[:, :1]).all() and (s == s[:, :1]).all(),
                     "coincidence", "coincident channels differ")
        E.append(e)
        S.append(s)
    ctx.need(len(E) == per, "number-of-batches", f"{len(E)}")
    M = T - k + 1
    for e, s in zip(E, S):
        e, s = (e[:, :1], s[:, :1]) if co else (e, s)
        v, m = (s, M) if kind != "tight" else (e, N)
        p = min(lag_p(v.ravel(), m), lag_p(v.T.ravel(), m))
        ctx.check(p > P_FALSE, "draws-repeat", f"draws repeat p={p:.2g}")
        for c in range(e.shape[1]):
            p = min(bins_p(s[:, c], M), bins_p(e[:, c], N))
            ctx.check(p > P_FALSE, "not-uniform",
                      f"channel {c}: elements or positions p={p:.2g}")
    ctx.event("huge")
    ctx.state("huge", co, kind)


@family("P05", quick=40, thorough=500)
def uniform(ctx):
    co = ctx.cycle([True, False])
    k = ctx.randint(1, 6)
    shapes = [(ctx.randint(1, 4), ctx.randint(1, 3), k + ctx.randint(0, 7))
              for _ in range(2)]
    if ctx.slot(4) == 1:  # many channels, elements or positions
        s = [list(q) for q in shapes]
        s[0][1] = ctx.choice([5, 8, 13])
        s[1][0], s[1][2] = 60, k + ctx.randint(0, 1)
        s[1 - ctx.slot(2)][1] += 3
        shapes = [tuple(q) for q in s]
    B, per = 50, 40
    ctx.params(coincident=co, k=k, shapes=shapes)
    st = Stream(ctx, shapes, torch.float64)
    ds = ctx.call(ChunkedTimeSeriesDataset, st.chunks, k, B, per, co)
    logs = [[], []]
    for j, x in enumerate(ds):
        ctx.need(j < 2 * per, "number-of-batches", "too many")
        logs[j // per].append(identify(ctx, x, st, k, B, co, j // per))
    for (N, C, T), log in zip(shapes, logs):
        E = np.stack([e for e, _ in log])
        S = np.stack([s for _, s in log])
        M = T - k + 1
        for c in range(1 if co else C):
            cell = (E[..., c] * M + S[..., c]).ravel()
            counts = np.bincount(cell, minlength=N * M)
            ctx.check((counts > 0).all(), "position-never-drawn",
                      f"(element, position) counts {counts.tolist()}")
            if N * M > 1:
                p = chi2_p(counts)
                ctx.check(p > P_FALSE, "not-uniform",
                          f"(element, position) counts {counts.tolist()} "
                          f"p={p:.2g}")
                ctx.event("uniformity_tests")
        if not co and C > 1:
            for a, b in itertools.combinations(range(C), 2):
                for what, V, m in (("elements", E, N), ("times", S, M)):
                    if m == 1:
                        continue
                    p = pair_p(V[..., a].ravel(), V[..., b].ravel(), m)
                    ctx.check(p > P_FALSE, "channels-dependent",
                              f"{what} of channels {a}, {b} dependent "
                              f"p={p:.2g}")
            ctx.event("independence_tests")
        a, b = E[:, 0::2, 0].ravel(), E[:, 1::2, 0].ravel()
        if N > 1:
            p = pair_p(a, b, N)
            ctx.check(p > P_FALSE, "rows-dependent",
                      f"elements of two rows dependent p={p:.2g}")
        a, b = S[:, 0::2, 0].ravel(), S[:, 1::2, 0].ravel()
        if M > 1:
            p = pair_p(a, b, M)
            ctx.check(p > P_FALSE, "rows-dependent",
                      f"times of two rows dependent p={p:.2g}")
    ctx.state("uniform", co, tuple(s[0] for s in shapes),
              tuple(s[1] for s in shapes))


@family("P05", quick=60, thorough=400)
def refusals(ctx):
    k = ctx.randint(3, 20)
    short = ctx.randint(1, k - 1)
    at = ctx.randint(0, 2)
    shapes = [(2, 2, k + 5)] * at + [(2, 2, short)]
    st = Stream(ctx, shapes, torch.float32)
    ctx.params(k=k, shapes=shapes)
    ds = ChunkedTimeSeriesDataset(st.chunks, k, 2, 1, ctx.choice([True, False]))
    it = iter(ds)
    for j in range(at):
        identify(ctx, next(it), st, k, 2, False, j)
    ctx.raises(ValueError, "short-chunk-accepted", next, it)
    ctx.state("short", at)


@family("P05", quick=6, thorough=20)
def empty(ctx):
    ds = ChunkedTimeSeriesDataset([], 4, 2, 3, ctx.cycle([True, False]))
    got = ctx.call(list, ds)
    ctx.check(len(got) == 0 == len(ds), "number-of-batches", "empty stream")
    ctx.state("empty")
