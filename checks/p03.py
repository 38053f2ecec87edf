"""P03: InMemoryDataset histories: exactly once, in step, announced sizes."""

import itertools

import numpy as np
import torch

from ml4gw.dataloading import InMemoryDataset
from vlib.core import Abort, family, to_np
from vlib.ids import id_series, layout

TECHNIQUE = ("history checker: every batch of every pass is logged and "
             "checked for exactly-once coverage against unique sample ids")
NOTE = ("Whole passes (repeated, interleaved, through a DataLoader) are "
        "logged; windows are identified by sample ids and checked for order, "
        "exactly-once coverage, channel/target alignment and batch sizes.")
RULE = (
    "seeded random length/window/stride/batch/limit/shuffle/coincidence/"
    "target; distinct by those flags and by the divisibility relations"
)
ASSUMPTIONS = ["data representable in float32, which the dataset stores"]
REQUIRED = {"large": 20, "passes_checked": 500, "windows_identified": 5000,
            "interleaved_histories": 50, "limited_passes": 50,
            "noncoincident_passes": 50, "long_series": 1}


DEFAULTS = dict(batch_size=32, stride=1, coincident=True, shuffle=True)


def setup(ctx, coincident=None):
    co = ctx.choice([True, True, False]) if coincident is None else coincident
    shuffle = ctx.choice([True, False])
    C = ctx.randint(1, 4)
    k = ctx.randint(1, 12)
    stride = ctx.choice([1, 2, 3, ctx.randint(1, 15), k, k + 1])
    nk = ctx.choice([1, 2, 3, ctx.randint(1, 40), ctx.randint(1, 40),
                     ctx.randint(30, 70)])
    big = ctx.choice(["C", "k", "nk"]) if ctx.rng.random() < 0.04 else None
    if big == "C":
        C = ctx.choice([9, 17, 33])
    elif big == "k":
        k = ctx.randint(100, 1100)
        stride = ctx.choice([1, 5, k, k // 2])
    elif big == "nk":
        nk = ctx.choice([ctx.randint(300, 1100), 257, 1025])
        stride = ctx.choice([1, 2, ctx.randint(1, 9)])
    extra = ctx.choice([0, stride - 1, ctx.randint(0, stride - 1)])
    T = (nk - 1) * stride + k + extra
    bs = ctx.choice([1, 2, nk, nk + 1, max(1, nk - 1), ctx.randint(1, 12), 32])
    if big:
        ctx.event("large")
        bs = ctx.choice([bs, 128, 129, 256, 300])
    limit = None
    if not co or ctx.rng.random() < 0.4:
        bs = min(bs, nk)
        limit = ctx.randint(1, nk // bs)
        if ctx.rng.random() < 0.3:
            limit = nk // bs
    use_y = co and ctx.choice([True, False])
    dtype = ctx.choice([torch.float32, torch.float32, torch.float64])
    ids = id_series(ctx, (C + 1, T), dtype)
    X = ids[:C]
    ydt = ctx.choice([torch.float32, torch.float64, torch.int64])
    y = ids[C].to(ydt) if use_y else None
    if dtype == torch.float32:
        X = layout(ctx, X)
    ctx.params(coincident=co, shuffle=shuffle, C=C, kernel=k, stride=stride,
               T=T, batch=bs, limit=limit, y=use_y)
    kw = dict(y=y, batch_size=bs, stride=stride, batches_per_epoch=limit,
              coincident=co, shuffle=shuffle)
    if ctx.slot(3) == 0:  # defaults left alone
        kw = {k: v for k, v in kw.items()
              if v is not None and DEFAULTS.get(k) is not v}
    ds = ctx.call(InMemoryDataset, X, k, **kw)
    return ds, dict(co=co, shuffle=shuffle, C=C, k=k, stride=stride, T=T,
                    bs=bs, limit=limit, X=to_np(X), nk=nk, extra=extra,
                    y=None if y is None else to_np(y))


def windows_of(ctx, batch, p):
    """identify every window of one batch: array (rows, channels) of window
    numbers"""
    if p["y"] is not None:
        ctx.need(isinstance(batch, (tuple, list)) and len(batch) == 2,
                 "target-missing", "expected (X, y)")
        x, y = batch
    else:
        ctx.need(isinstance(batch, torch.Tensor), "batch-type",
                 f"{type(batch)}")
        x, y = batch, None
    ctx.need(x.ndim == 3 and tuple(x.shape[1:]) == (p["C"], p["k"]),
             "batch-shape", f"{tuple(x.shape)}")
    xs = to_np(x)
    out = np.zeros((len(xs), p["C"]), int)
    for r in range(len(xs)):
        for c in range(p["C"]):
            at = np.flatnonzero(p["X"][c] == xs[r, c, 0])
            ok = len(at) == 1 and np.array_equal(
                p["X"][c][at[0] : at[0] + p["k"]], xs[r, c])
            ctx.need(ok, "not-a-window",
                     f"row {r} channel {c} is not a window of that channel")
            ctx.need(at[0] % p["stride"] == 0, "off-stride",
                     f"start {at[0]} is not a multiple of {p['stride']}")
            out[r, c] = at[0] // p["stride"]
    ctx.event("windows_identified", out.size)
    if p["co"]:
        ctx.need((out == out[:, :1]).all(), "channels-out-of-step",
                 "channels of one window cover different times")
    if y is not None:
        ys = to_np(y)
        ctx.need(ys.shape == (len(xs), p["k"]), "target-shape", str(ys.shape))
        for r in range(len(xs)):
            s = out[r, 0] * p["stride"]
            ctx.need(np.array_equal(ys[r], p["y"][s : s + p["k"]]),
                     "target-out-of-step",
                     "target window covers other time steps")
        ctx.event("targets_checked", len(ys))
    return out


def check_pass(ctx, batches, p, announced):
    """batches: list of window-number arrays of one complete pass"""
    nk, bs, limit = p["nk"], p["bs"], p["limit"]
    n = limit if limit is not None else -(-nk // bs)
    ctx.check(announced == n, "length", f"len {announced}, expected {n}")
    ctx.need(len(batches) == n, "number-of-batches",
             f"{len(batches)} batches, announced {n}")
    total = bs * limit if limit is not None else nk
    for j, b in enumerate(batches):
        want = bs if (limit is not None or j < n - 1) else total - bs * (n - 1)
        ctx.need(len(b) == want, "batch-size",
                 f"batch {j}: {len(b)} rows, expected {want}")
    w = np.concatenate(batches)
    if p["co"]:
        w = w[:, 0]
        ctx.need(len(set(w.tolist())) == len(w), "window-repeated",
                 "a window appears twice in one pass", windows=w)
        if limit is None:
            ctx.need(set(w.tolist()) == set(range(nk)), "window-missing",
                     "a window never appears", windows=w)
        if not p["shuffle"]:
            ctx.check(np.array_equal(w, np.arange(total)), "order",
                      "unshuffled pass out of time order", windows=w)
        elif total >= 20:
            ctx.check(not np.array_equal(w, np.arange(total)),
                      "not-shuffled", "shuffled pass is in time order")
        if limit is not None:
            ctx.event("limited_passes")
    else:
        ctx.event("noncoincident_passes")
        if not p["shuffle"]:
            combos = list(itertools.islice(
                itertools.product(*[range(nk)] * p["C"]), total))
            ctx.check(np.array_equal(w, np.array(combos)), "combination-order",
                      "last channel must move fastest", windows=w[:6])
    ctx.event("passes_checked")


def st(ctx, p, tag):
    ctx.state(tag, p["co"], p["shuffle"], p["C"] > 1, p["y"] is not None,
              p["limit"] is not None, p["nk"] % p["bs"] == 0,
              p["nk"] == 1, p["extra"] > 0, np.sign(p["stride"] - p["k"]))


@family("P03", quick=1500, thorough=30000)
def passes(ctx):
    ds, p = setup(ctx)
    for _ in range(ctx.randint(1, 3)):
        batches = [windows_of(ctx, b, p) for b in ctx.call(list, ds)]
        check_pass(ctx, batches, p, len(ds))
    st(ctx, p, "pass")


@family("P03", quick=500, thorough=8000)
def interleaved(ctx):
    """several live iterators over one dataset, advanced in random order,
    some abandoned midway"""
    ds, p = setup(ctx)
    its = [iter(ds) for _ in range(ctx.randint(2, 4))]
    logs = [[] for _ in its]
    done = [False] * len(its)
    abandon = ctx.randint(-1, len(its) - 1) if len(its) > 2 else -1
    while not all(done):
        j = ctx.choice([q for q in range(len(its)) if not done[q]])
        if j == abandon and len(logs[j]) >= 1:
            done[j] = True
            continue
        try:
            b = next(its[j])
        except StopIteration:
            done[j] = True
            continue
        logs[j].append(windows_of(ctx, b, p))
        ctx.need(len(logs[j]) <= 2 * p["nk"] + 2, "number-of-batches",
                 "iterator does not end")
    for j, log in enumerate(logs):
        if j != abandon:
            check_pass(ctx, log, p, len(ds))
    ctx.event("interleaved_histories")
    st(ctx, p, "inter")


@family("P03", quick=200, thorough=3000)
def loader(ctx):
    """consumed through a DataLoader, as users do"""
    ds, p = setup(ctx)
    dl = torch.utils.data.DataLoader(
        ds, batch_size=None, num_workers=0, pin_memory=False)
    batches = [windows_of(ctx, b, p) for b in dl]
    check_pass(ctx, batches, p, len(dl))
    ctx.event("loader_passes")
    st(ctx, p, "loader")


@family("P03", quick=60, thorough=600)
def reach(ctx):
    """over many limited/independent passes every window is drawn"""
    co = ctx.cycle([True, False])
    C, k, stride = ctx.randint(1, 4), ctx.randint(1, 5), ctx.randint(1, 4)
    if ctx.slot(8) == 3:
        C = ctx.choice([6, 9, 17])
    nk = ctx.randint(2, 8)
    T = (nk - 1) * stride + k + ctx.randint(0, stride - 1)
    bs = ctx.randint(1, nk)
    limit = ctx.randint(1, nk // bs)
    X = id_series(ctx, (C, T), torch.float32)
    ctx.params(coincident=co, C=C, kernel=k, stride=stride, T=T, batch=bs,
               limit=limit)
    ds = ctx.call(InMemoryDataset, X, k, batch_size=bs, stride=stride,
                  batches_per_epoch=limit, coincident=co, shuffle=True)
    p = dict(co=co, shuffle=True, C=C, k=k, stride=stride, T=T, bs=bs,
             limit=limit, X=to_np(X), nk=nk, extra=0, y=None)
    seen = [set() for _ in range(C)]
    differ = np.zeros((C, C), bool)
    for _ in range(260 // (bs * limit) + 100):
        batches = [windows_of(ctx, b, p) for b in ds]
        check_pass(ctx, batches, p, len(ds))
        w = np.concatenate(batches)
        differ |= (w[:, :, None] != w[:, None]).any(0)
        for c in range(C):
            seen[c].update(w[:, c].tolist())
    for c in range(C):
        ctx.check(seen[c] == set(range(nk)), "window-never-drawn",
                  f"channel {c}: {sorted(seen[c])} of {nk}")
    if not co and C > 1:
        ctx.check((differ | np.eye(C, dtype=bool)).all(), "channels-locked",
                  "two non-coincident channels always share the window")
    ctx.state("reach", co, C > 1, nk)


@family("P03", quick=1, thorough=6, priority=1)
def long_series(ctx):
    """more samples than a single-precision index can count; two channels
    spell out the position"""
    T = ctx.randint(17_000_000, 21_000_000)
    k = ctx.randint(20, 60)
    stride = ctx.choice([1, 3, ctx.randint(1, 50)])
    shuffle = ctx.cycle([True, False])
    nk = (T - k) // stride + 1
    bs = 64
    pos = torch.arange(T)
    X = torch.stack([(pos >> 12).float(), (pos & 4095).float()])
    ctx.params(T=T, kernel=k, stride=stride, shuffle=shuffle)
    ds = ctx.call(InMemoryDataset, X, k, y=X[1].clone(), batch_size=bs,
                  stride=stride, shuffle=shuffle)
    ctx.check(len(ds) == -(-nk // bs), "length", f"{len(ds)}")
    n = 0
    top = 0
    if not shuffle:  # a coarse stride, to reach the end of the pass
        stride = T // 3000
        nk = (T - k) // stride + 1
        ds = ctx.call(InMemoryDataset, X, k, y=X[1].clone(), batch_size=bs,
                      stride=stride, shuffle=False)
    for x, y in ds:
        x = to_np(x).astype(np.int64)
        p = (x[:, 0] << 12) + x[:, 1]
        ctx.need((p == p[:, :1] + np.arange(k)).all(), "not-a-window",
                 "a window of a long series is not contiguous")
        ctx.need((p[:, 0] % stride == 0).all(), "off-stride",
                 "a start is not a multiple of the stride")
        ctx.need((to_np(y) == x[:, 1]).all(), "target-out-of-step",
                 "target window covers other time steps")
        if not shuffle:
            ctx.need((p[:, 0] == (n + np.arange(len(p))) * stride).all(),
                     "order", "unshuffled pass out of time order")
        n += len(p)
        top = max(top, int(p.max()))
        if shuffle and n >= 4000:
            break
    if not shuffle:
        ctx.check(n == nk, "window-missing", f"{n} windows of {nk}")
    ctx.check(top > T - T // 100, "window-never-drawn",
              f"highest sample drawn {top} of {T}")
    ctx.event("long_series")
    ctx.state("long", shuffle)


@family("P03", quick=150, thorough=1500)
def refusals(ctx):
    C, k, T = ctx.randint(1, 3), ctx.randint(2, 6), ctx.randint(20, 60)
    stride = ctx.randint(1, 4)
    nk = (T - k) // stride + 1
    X = torch.zeros(C, T)
    over = ctx.randint(1, 3)
    bs = ctx.randint(1, nk)
    cases = {
        "y-shorter": dict(y=torch.zeros(T - over)),
        "y-longer": dict(y=torch.zeros(T + over)),
        "y-noncoincident": dict(y=torch.zeros(T), coincident=False,
                                batches_per_epoch=1, batch_size=1),
        "noncoincident-unlimited": dict(coincident=False),
        "too-many": dict(batch_size=bs, batches_per_epoch=nk // bs + 1),
        "too-many-nc": dict(batch_size=bs, batches_per_epoch=nk // bs + 1,
                            coincident=False),
    }
    name = ctx.cycle(sorted(cases))
    ctx.params(case=name, T=T, k=k, stride=stride)
    ctx.raises(ValueError, "not-refused", InMemoryDataset, X, k, msg=name,
               stride=stride, **cases[name])
    ctx.state(name)
