"""P26: shifted correlation is the Pearson coefficient at every shift."""

import numpy as np
import torch

from ml4gw.transforms import ShiftedPearsonCorrelation
from vlib.core import family

TECHNIQUE = ("output monitor: every coefficient recomputed with numpy in "
             "double precision from explicitly shifted series; metamorphic "
             "monitors for rescaling, offsets and sign; refusal probes")
NOTE = ("Series whose shifted version is constant have no Pearson "
        "coefficient; for those only the shape is looked at.")
RULE = ("seeded random lengths, maximum shifts, rank combinations, "
        "amplitudes from 1e-24 to 1e15 and contents; distinct by ranks, "
        "shift, amplitude decade and content")
ASSUMPTIONS = ["offset of a series at most 100 times its scatter in single "
               "precision"]
REQUIRED = {"large": 30, "grids_checked": 250, "coefficients": 20000, "zero_shift": 20,
            "rescaled": 100, "strain_sized": 40, "refusals": 120,
            "ranks_3_3": 25, "ranks_3_2": 25, "ranks_3_1": 25,
            "ranks_2_1": 25, "long_shift": 10}

RANKS = [(3, 3), (3, 2), (3, 1), (2, 2), (2, 1), (1, 1)]


def reference(x, y, M):
    """Pearson coefficients, numpy doubles; nan where undefined"""
    T = x.shape[-1]
    y = np.broadcast_to(y, x.shape)
    out = np.full((2 * M + 1, *x.shape[:-1]), np.nan)
    for k, shift in enumerate(range(-M, M + 1)):
        z = np.zeros_like(x)
        if shift < 0 and -shift < T:
            z[..., -shift:] = x[..., : T + shift]
        elif 0 <= shift < T:
            z[..., : T - shift] = x[..., shift:]
        a = z - z.mean(-1, keepdims=True)
        b = y - y.mean(-1, keepdims=True)
        with np.errstate(all="ignore"):
            a = a / np.sqrt((a**2).sum(-1, keepdims=True))
            b = b / np.sqrt((b**2).sum(-1, keepdims=True))
            out[k] = (a * b).sum(-1)
        out[k] = np.where((z == 0).all(-1), np.nan, out[k])
    return out


def content(ctx, shape):
    n = shape[-1]
    kind = ctx.choice(["noise", "chirp", "burst", "offset", "mixed",
                       "integers"])
    x = ctx.rng.standard_normal(shape)
    t = np.arange(n)
    if kind == "chirp":
        x = 0.1 * x + np.cos(0.3 * t**1.5)
    elif kind == "burst":
        x = 0.01 * x + np.exp(-0.5 * ((t - n / 2) / max(n / 10, 1)) ** 2)
    elif kind == "offset":
        x = x + ctx.uniform(-20, 20)
    elif kind == "integers":
        # symmetric about zero, so that the mean is among the values
        x = ctx.rng.integers(-2, 3, shape).astype(float)
        x[..., n - n // 2 :] = -x[..., : n // 2]
    elif kind == "mixed" and len(shape) > 1:
        x = x * 10.0 ** ctx.rng.integers(-3, 4, shape[:-1])[..., None]
    return x, kind


@family("P26", quick=350, thorough=8000, priority=1)
def coefficients(ctx):
    rx, ry = ctx.cycle(RANKS)
    T = ctx.choice([ctx.randint(2, 12), ctx.randint(12, 80),
                    ctx.randint(80, 400)])
    M = ctx.choice([0, 1, ctx.randint(0, max(1, T // 4)),
                    ctx.randint(0, T - 1), T, T + 3])
    M = min(M, 60)
    B, C = ctx.randint(1, 4), ctx.randint(1, 4)
    big = {4: "length", 9: "shift", 14: "batch", 18: "batch"}.get(ctx.slot(20))
    if big == "length":
        T = ctx.choice([2048, 4097, 8192, 65537, ctx.randint(1000, 20000)])
        M, B, C = ctx.randint(0, 4), ctx.randint(1, 2), ctx.randint(1, 2)
    elif big == "shift":
        T = ctx.randint(60, 700)
        M = ctx.choice([64, 128, T - 1, T, ctx.randint(60, 700)])
        B, C = 1, ctx.randint(1, 2)
    elif big:
        T, M = ctx.randint(4, 60), ctx.randint(0, 10)
        B, C = ctx.choice([(33, 1), (1, 33), (65, 2), (9, 17), (2, 64)])
    if big:
        ctx.event("large")
    dtype = ctx.choice([torch.float32, torch.float64])
    sx = (B, C, T)[3 - rx:]
    sy = (B, C, T)[3 - ry:]
    ax = 10.0 ** ctx.choice([0, 0, 0, -21, -24, 12, ctx.randint(-20, 15)])
    ay = 10.0 ** ctx.choice([0, 0, 0, -21, -24, 12, ctx.randint(-20, 15)])
    x, kx = content(ctx, sx)
    y, ky = content(ctx, sy)
    if ctx.rng.random() < 0.3:
        # the reference is a shifted copy
        s = ctx.randint(-M, M) if M else 0
        y = np.roll(np.broadcast_to(x, sx)[(0,) * (rx - ry)], s, -1)
        ky = "copy"
    x = torch.tensor(x * ax, dtype=dtype)
    y = torch.tensor(y * ay, dtype=dtype)
    ctx.params(T=T, M=M, sx=sx, sy=sy, ax=ax, ay=ay, kx=kx, ky=ky,
               dtype=str(dtype))
    xc, yc = x.clone(), y.clone()
    m = ctx.call(ShiftedPearsonCorrelation, M)
    out = ctx.call(m, x, y)
    ctx.check(torch.equal(x, xc) and torch.equal(y, yc), "input_altered",
              "inputs altered")
    ctx.need(tuple(out.shape) == (2 * M + 1, *sx[:-1]), "shape",
             f"{tuple(out.shape)} for {sx}, {M}")
    # single precision: the scatter must survive the subtraction
    want = reference(x.double().numpy() / ax, y.double().numpy() / ay, M)
    ok = np.isfinite(want)
    xs = x.double().numpy() / ax
    eps = 1.2e-7 if dtype == torch.float32 else 2.3e-16
    # condition: root mean square of the shifted series over its scatter
    T_ = T
    with np.errstate(all="ignore"):
        cond = []
        ys = np.broadcast_to(y.double().numpy() / ay, sx)
        cy = np.sqrt((ys**2).mean(-1)) / ys.std(-1)
        for shift in range(-M, M + 1):
            z = np.zeros_like(xs)
            if shift < 0 and -shift < T:
                z[..., -shift:] = xs[..., : T + shift]
            elif 0 <= shift < T:
                z[..., : T - shift] = xs[..., shift:]
            cond.append(np.sqrt((z**2).mean(-1)) / z.std(-1) + cy)
        cond = np.array(cond)
    ok &= np.isfinite(cond) & (cond < 1e3)
    tol = eps * (60 + 6 * np.sqrt(T_)) * np.where(ok, cond, 1)
    got = out.double().numpy()
    err = np.abs(got - want)
    bad = ok & ~(err <= tol)
    ctx.check(not bad.any(), "coefficient",
              "a coefficient differs from numpy's" if bad.any() else "",
              worst=float(np.nanmax(np.where(ok, err / tol, 0))),
              got=got[bad][:3].tolist(), want=want[bad][:3].tolist())
    ctx.check(not (ok & (np.abs(got) > 1 + tol)).any(), "range",
              "coefficient outside [-1, 1]")
    ctx.check(out.dtype == dtype, "dtype", f"{out.dtype}")
    ctx.maximum("error_over_tolerance",
                float(np.max(np.where(ok, err / tol, 0), initial=0)))
    ctx.event("grids_checked")
    ctx.event("coefficients", int(ok.sum()))
    ctx.event(f"ranks_{rx}_{ry}")
    if M == 0:
        ctx.event("zero_shift")
    if M >= T:
        ctx.event("long_shift")
    if ax < 1e-15 or ay < 1e-15:
        ctx.event("strain_sized")
    # rescaling, offset of the reference and sign
    c, d = (float(2.0 ** ctx.randint(-30, 30)) for _ in range(2))
    both = torch.stack([ctx.call(m, x * c, y * d), -ctx.call(m, x, -y)])
    for o, what in zip(both, ("rescaled", "sign"), strict=True):
        e = np.abs(o.double().numpy() - got)
        ctx.check(not (ok & ~(e <= tol)).any(), what,
                  f"{what}: coefficients change", c=c, d=d)
    ctx.event("rescaled")
    # every call is independent of the earlier ones
    ctx.equal(ctx.call(m, x, y), out, "repeat", "a second call differs")
    # a peak where the copy sits
    ctx.state("coef", rx, ry, min(M, 3), round(np.log10(ax)) // 6,
              round(np.log10(ay)) // 6, kx, ky, T < 13)


@family("P26", quick=160, thorough=1500)
def refusals(ctx):
    kind = ctx.cycle(["rank", "four", "time", "channel", "batch", "swap"])
    T, B, C = ctx.randint(4, 40), ctx.randint(2, 4), ctx.randint(2, 4)
    m = ShiftedPearsonCorrelation(ctx.randint(0, 5))
    x = torch.randn(B, C, T)
    if kind == "rank":
        r = ctx.choice([(2, 3), (1, 3), (1, 2)])
        x, y = x[(0,) * (3 - r[0])], x[(0,) * (3 - r[1])]
    elif kind == "four":
        x = x[None]
        y = ctx.choice([x, x[0], x[0, 0], x[0, 0, 0]])
    elif kind == "time":
        y = torch.randn(B, C, T + ctx.choice([-1, 1, 1 - T]))
        y = y[(0,) * ctx.randint(0, 2)]
    elif kind == "channel":
        y = torch.randn(B, ctx.choice([C + 1, 1]), T)[(0,) * ctx.randint(0, 1)]
    elif kind == "batch":
        y = torch.randn(ctx.choice([B + 1, 1]), C, T)
    else:
        y = torch.randn(C + 1, C, T) if B == C else torch.randn(C, B, T)
    ctx.params(kind=kind, x=tuple(x.shape), y=tuple(y.shape))
    ctx.raises(ValueError, f"refuse_{kind}", m, x, y,
               msg=f"{tuple(x.shape)} with {tuple(y.shape)}")
    ctx.event("refusals")
    ctx.state("refuse", kind, x.ndim, y.ndim)
