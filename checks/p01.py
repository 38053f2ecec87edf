"""P01: unfold_windows / slice_kernels return exactly the named samples."""

import numpy as np
import torch

from ml4gw.utils.slicing import slice_kernels, unfold_windows
from vlib.core import family, to_np
from vlib.ids import id_series, layout

TECHNIQUE = "runtime monitor: unique sample ids against an index model"
NOTE = ("Every returned window, remainder and refusal of seeded random and "
        "hostile calls is compared bit for bit with the samples named; holds "
        "for the calls explored, CPU tensors.")
RULE = (
    "seeded random rank/length/window/stride/dtype/layout with unique sample "
    "ids; a situation is distinct by rank, dtype, stride relation, remainder, "
    "and window-count class"
)
ASSUMPTIONS = ["CPU tensors", "window not longer than the series"]
REQUIRED = {"large": 20, "windows_checked": 1000, "slices_checked": 1000,
            "refusals_checked": 50}

F = [torch.float32, torch.float64]


def special(ctx, x):
    """put non-finite values and signed zeros in: they are copied too"""
    if ctx.slot(7) == 3 and x.numel() > 4:
        flat = x.reshape(-1)
        for v in (float("nan"), float("inf"), -float("inf"), -0.0):
            flat[ctx.randint(0, flat.numel() - 1)] = v
        return flat.reshape(x.shape)
    return x


def bits(t):
    a = np.ascontiguousarray(to_np(t))
    return a.view({4: np.uint32, 8: np.uint64, 2: np.uint16}[a.itemsize])


@family("P01", quick=3000, thorough=60000)
def unfold(ctx):
    rank = ctx.cycle([1, 2, 3])
    dtype = ctx.choice(F + F + [torch.complex64])
    length = ctx.randint(1, 90) if ctx.slot(5) else ctx.randint(90, 700)
    window = ctx.randint(1, length)
    rel = ctx.choice(["small", "equal", "large", "any"])
    stride = {
        "small": ctx.randint(1, max(1, window)),
        "equal": window,
        "large": window + ctx.randint(1, 9),
        "any": ctx.randint(1, length + 3),
    }[rel]
    shape = {
        1: (length,),
        2: (ctx.randint(1, 4), length),
        3: (ctx.randint(1, 4), ctx.randint(1, 4), length),
    }[rank]
    x = id_series(ctx, shape, dtype, full=True)
    x = layout(ctx, special(ctx, x) if dtype in F else x)
    drop = ctx.choice([True, False])
    ctx.params(shape=shape, window=window, stride=stride, drop_last=drop,
               dtype=str(dtype))
    out = ctx.call(unfold_windows, x, window, stride, drop_last=drop)
    n = (length - window) // stride + 1
    xn = to_np(x)
    want = np.stack(
        [xn[..., k * stride : k * stride + window] for k in range(n)]
    )
    if drop:
        ctx.need(isinstance(out, torch.Tensor), "unfold-return", "tensor")
    else:
        ctx.need(isinstance(out, tuple) and len(out) == 2, "unfold-return",
                 "pair with the remainder")
        out, rem = out
        wantrem = xn[..., (n - 1) * stride + window :][None]
        ctx.equal(rem, wantrem, "unfold-remainder", "remainder")
        ctx.event("remainders_checked")
        if stride <= window:
            # conservation: each sample in a window or the remainder
            seen = np.concatenate(
                [np.moveaxis(to_np(out), 0, -2).reshape(shape[:-1] + (-1,)),
                 to_np(rem)[0]], axis=-1)
            for a, b in zip(seen.reshape(-1, seen.shape[-1]),
                            xn.reshape(-1, length)):
                ctx.check(set(a[~np.isnan(a)]) == set(b[~np.isnan(b)]),
                          "unfold-conservation",
                          "a sample is in neither windows nor remainder")
    if ctx.equal(out, want, "unfold-windows", "windows"):
        ctx.check((bits(out) == bits(torch.from_numpy(want))).all(),
                  "unfold-bits", "bit patterns differ")
    ctx.event("windows_checked", n)
    ctx.state(rank, str(dtype), np.sign(stride - window),
              (length - window) % stride == 0, min(n, 4), drop, window == 1)


@family("P01", quick=3000, thorough=60000)
def slicing(ctx):
    mode = ctx.cycle(["1d", "2d", "2d-ind", "3d"])
    dtype = ctx.choice(F + [torch.int64, torch.int32])
    length = ctx.randint(1, 80) if ctx.slot(5) else ctx.randint(80, 600)
    size = ctx.randint(1, length)
    C, B = ctx.randint(1, 5), ctx.randint(1, 7)
    if ctx.slot(3) == 0:
        C = B  # shapes that could be confused
    shape = {"1d": (length,), "2d": (C, length), "2d-ind": (C, length),
             "3d": (B, C, length)}[mode]
    x = id_series(ctx, shape, dtype, full=True)
    if dtype.is_floating_point:
        x = layout(ctx, special(ctx, x))
    ishape = (B, C) if mode == "2d-ind" else (B,)
    idx = torch.from_numpy(ctx.rng.integers(0, length - size + 1, ishape))
    if ctx.slot(4) == 0:  # end points and repeats
        idx[:] = ctx.choice([0, length - size])
    elif ctx.slot(4) == 1:
        idx[-1] = length - size
        idx[0] = 0
    if ctx.slot(6) == 5:
        big = torch.zeros(tuple(2 * s for s in ishape), dtype=torch.int64)
        v = big[tuple(slice(None, None, 2) for _ in ishape)]
        v.copy_(idx)
        idx = v
    ctx.params(mode=mode, shape=shape, size=size, idx=idx, dtype=str(dtype))
    out = ctx.call(slice_kernels, x, idx, size)
    xn, iN = to_np(x), to_np(idx)
    rows = []
    for b in range(B):
        if mode == "1d":
            rows.append(xn[iN[b] : iN[b] + size])
        elif mode == "2d":
            rows.append(xn[:, iN[b] : iN[b] + size])
        elif mode == "2d-ind":
            rows.append(np.stack(
                [xn[c, iN[b, c] : iN[b, c] + size] for c in range(C)]))
        else:
            rows.append(xn[b, :, iN[b] : iN[b] + size])
    want = np.stack(rows)
    if ctx.equal(out, want, "slice", "slices") and dtype.is_floating_point:
        ctx.check((bits(out) == bits(torch.from_numpy(want))).all(),
                  "slice-bits", "bit patterns differ")
    ctx.event("slices_checked", B)
    ctx.state(mode, str(dtype), B == C, size == length, size == 1,
              len(set(iN.reshape(-1).tolist())) < iN.size,
              bool((iN == length - size).any()))


@family("P01", quick=60, thorough=900, priority=1)
def large(ctx):
    """many windows, channels, elements or samples at once"""
    mode = ctx.cycle(["unfold1", "unfold2", "unfold3", "1d", "2d", "2d-ind",
                      "3d"])
    dtype = ctx.choice([torch.float32, torch.float64, torch.int64,
                        torch.int32, torch.int16, torch.complex64])
    if mode[0] == "u":  # torch unfolds no integers
        dtype = ctx.choice([torch.float32, torch.float64, torch.complex64])
    what = ctx.choice(["length", "channels", "batch", "window"])
    L = ctx.randint(20, 300)
    B, C = ctx.randint(1, 6), ctx.randint(1, 6)
    if what == "length":
        L = ctx.choice([33000, 66000, ctx.randint(5000, 140000)])
    elif what == "channels":
        C = ctx.choice([16, 17, 33, 65, 129, 260])
    elif what == "batch":
        B = ctx.choice([33, 65, 129, 257, 520, 1030])
    else:
        L = ctx.randint(3000, 9000)
    size = ctx.randint(1, min(L, 40))
    if what == "window":
        size = ctx.choice([1024, 2048, 2049, ctx.randint(1000, L - 1)])
    shape = {1: (L,), 2: (C, L), 3: (B, C, L)}[
        int(mode[-1]) if mode[0] == "u" else int(mode[0])]
    n = int(np.prod(shape))
    x = ctx.rng.integers(-32000, 32000, n).reshape(shape)
    if dtype == torch.complex64:
        x = x + 1j * x[..., ::-1]
    x = torch.from_numpy(np.ascontiguousarray(x)).to(dtype)
    if dtype == torch.float64:  # values that need the whole type
        x = x + 2.0**-36
    elif dtype == torch.int64:
        x = x + 2**53 + 1
    elif dtype == torch.int32:
        x = x + 2**24 + 1
    win = np.lib.stride_tricks.sliding_window_view(to_np(x), size, axis=-1)
    ctx.params(mode=mode, shape=shape, size=size, dtype=str(dtype), B=B)
    if mode[0] == "u":
        stride = ctx.choice([1, size, ctx.randint(1, size)])
        if n * size / stride > 2e7:
            stride = size
        out, rem = ctx.call(unfold_windows, x, size, stride, drop_last=False)
        want = np.moveaxis(win[..., ::stride, :], -2, 0)
        ctx.equal(out, want, "unfold-windows", "windows")
        end = (len(want) - 1) * stride + size
        ctx.equal(rem, to_np(x)[None, ..., end:], "unfold-remainder", "")
        ctx.event("windows_checked", len(want))
    else:
        ishape = (B, C) if mode == "2d-ind" else (B,)
        idx = ctx.rng.integers(0, L - size + 1, ishape)
        idx.reshape(-1)[-1] = L - size
        want = {"1d": lambda: win[idx],
                "2d": lambda: np.moveaxis(win[:, idx], 1, 0),
                "2d-ind": lambda: win[np.arange(C)[None], idx],
                "3d": lambda: win[np.arange(B), :, idx]}[mode]()
        out = ctx.call(slice_kernels, x, torch.from_numpy(idx), size)
        ctx.equal(out, want, "slice", "slices")
        ctx.event("slices_checked", B)
    ctx.event("large")
    ctx.state("large", mode, what, str(dtype))


@family("P01", quick=400, thorough=4000)
def refusals(ctx):
    L, size = ctx.randint(8, 40), ctx.randint(1, 8)
    B, C = ctx.randint(2, 5), ctx.randint(2, 5)

    def z(*s):
        return torch.zeros(s, dtype=torch.int64)

    other = C + ctx.choice([-1, 1, 2])
    cases = {
        "1d-2didx": ((L,), z(B, C)),
        "1d-0didx": ((L,), z()),
        "1d-3didx": ((L,), z(B, 1, 1)),
        "2d-wrong-channels": ((C, L), z(B, other)),
        "2d-one-channel-idx": ((C, L), z(B, 1)),
        "2d-transposed": ((C, L), z(C, C + 1)),
        "2d-3didx": ((C, L), z(B, C, 1)),
        "2d-0didx": ((C, L), z()),
        "3d-short": ((B, C, L), z(B - 1)),
        "3d-long": ((B, C, L), z(B + 1)),
        "3d-one": ((B, C, L), z(1)),
        "3d-2didx": ((B, C, L), z(B, C)),
        "3d-2didx1": ((B, C, L), z(B, 1)),
        "3d-0didx": ((B, C, L), z()),
        "4d": ((1, B, C, L), z(B)),
        "0d": ((), z(B)),
    }
    name = ctx.cycle(sorted(cases))
    shape, idx = cases[name]
    ctx.params(case=name, x=shape, idx=tuple(idx.shape), size=size)
    ctx.raises(Exception, f"slice-not-refused", slice_kernels,
               torch.zeros(shape), idx, size, msg=name)
    ctx.state(name)
