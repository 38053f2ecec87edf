"""P09: whitening against an independent float64 reference and its laws."""

import numpy as np
import torch
from scipy import signal

from ml4gw.spectral import whiten
from ml4gw.transforms import FixedWhiten, Whiten
from vlib.core import family, to_np
from vlib.ids import layout

TECHNIQUE = ("runtime monitor: every whitened series against an independent "
             "float64 filter, plus linearity/offset/crop/variance laws")
NOTE = ("Functional, per-call and fitted interfaces are compared sample by "
        "sample with an independent numpy implementation of the truncated "
        "inverse-spectrum filter, over ranks and resolutions of the "
        "background, odd/even lengths, pass bands and precisions, and with "
        "each other; coloured noise is checked for unit variance.")
RULE = ("seeded random kernel length, background rank/resolution/shape/"
        "amplitude, impulse length, pass band, precision; distinct by these "
        "classes")
ASSUMPTIONS = [
    "impulse responses of at least two samples, shorter than the kernel",
    "backgrounds representable in their dtype and positive (or infinite)",
]
REQUIRED = {"large": 30, "samples_checked": 100000, "fitted_checked": 100,
            "laws_checked": 300, "variance_checked": 20}


def reference(x, psd, pad, window, sr, hp, lp, crop):
    """x (B,C,N) float64, psd (b,c,F) float64; window: full-length taper"""
    B, C, N = x.shape
    F = N // 2 + 1
    psd = resample(psd, F)
    M = 2 * (F - 1)
    amp = psd**-0.5
    df = sr / M
    k = np.arange(F)
    if hp is not None:
        amp = np.where(k < int(hp / df), 0, amp)
    if lp is not None:
        amp = np.where(k >= int(lp / df), 0, amp)
    if F % 2:
        amp = np.where(k == F - 1, 0, amp)
    h = np.fft.irfft(amp, n=M, axis=-1)
    taper = np.zeros(M)
    taper[:pad] = window[len(window) - pad:]
    taper[M - pad:] = window[:pad]
    filt = np.abs(np.fft.rfft(h * taper, n=M, axis=-1)) * 2**0.5
    x = x - x.mean(-1, keepdims=True)
    y = np.fft.irfft(np.fft.rfft(x, axis=-1) * filt, n=N, axis=-1)
    y = y / sr**0.5
    gain = filt.max()
    return (y[..., pad:N - pad] if crop else y), gain / sr**0.5


def resample(psd, F):
    """linear interpolation of bin centres (align_corners=False)"""
    n = psd.shape[-1]
    if n == F:
        return psd
    src = np.clip((np.arange(F) + 0.5) * n / F - 0.5, 0, None)
    i0 = np.minimum(np.floor(src).astype(int), n - 1)
    i1 = np.minimum(i0 + 1, n - 1)
    w = src - i0
    return psd[..., i0] * (1 - w) + psd[..., i1] * w


def hann(n):
    return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)


def background(ctx, shape, sr, amp, kind):
    n = shape[-1]
    f = np.linspace(0, sr / 2, n)
    out = np.empty(shape)
    for idx in np.ndindex(*shape[:-1]):
        if kind == "flat":
            p = np.full(n, ctx.uniform(0.5, 2))
        elif kind == "smooth":
            p = ctx.uniform(0.5, 2) * (1 + (0.1 * sr / (f + 0.02 * sr))**2)
        elif kind == "lines":
            p = 1 + (0.05 * sr / (f + 0.02 * sr))**2
            j = ctx.rng.integers(0, n, max(1, n // 20))
            p[j] *= ctx.loguniform(10, 1e3)
        else:
            p = ctx.uniform(0.3, 3, n)
        out[idx] = p
    return out * amp**2


def setting(ctx, inf_ok=True):
    sr = ctx.choice([64, 100, 128.0, 256, 1024, 2048.0, 333.3])
    N = ctx.choice([16, 17, 18, 19, ctx.randint(16, 200),
                    ctx.randint(16, 200), ctx.randint(200, 1500)])
    pad = ctx.choice([1, 2, ctx.randint(1, (N - 1) // 2),
                      ctx.randint(1, max(1, N // 4)), (N - 1) // 2])
    B, C = ctx.randint(1, 4), ctx.randint(1, 4)
    big = ctx.slot(20) == 13
    if big:  # one axis at the sizes of real use
        ctx.event("large")
        what = ctx.choice(["kernel", "channels", "batch"])
        if what == "kernel":
            N = ctx.choice([4096, 8192, 16384, 16385, ctx.randint(1500, 20000)])
            pad = ctx.choice([N // 8, ctx.randint(1, N // 2 - 1)])
            B, C = ctx.randint(1, 2), ctx.randint(1, 3)
        else:
            N = ctx.randint(16, 64)
            pad = ctx.randint(1, (N - 1) // 2)
            if what == "channels":
                C = ctx.choice([5, 6, 8, 9, 16, 17, ctx.randint(5, 40)])
            else:
                B = ctx.choice([16, 32, 33, 64, 65, 128, 129, 257,
                                ctx.randint(5, 520)])
    rank = ctx.cycle([1, 2, 3, "B1F", "1CF"])
    F = N // 2 + 1
    nf = ctx.choice([F, F, F + 1, F - 1, 2 * F - 1, 3 * F,
                     ctx.randint(max(3, F // 3), 3 * F)])
    if big and ctx.slot(3) == 0:
        nf = ctx.choice([8 * F, ctx.randint(3, 8), ctx.randint(F, 16 * F)])
    shape = {1: (nf,), 2: (C, nf), 3: (B, C, nf), "B1F": (B, 1, nf),
             "1CF": (1, C, nf)}[rank]
    amp = ctx.choice([1.0, 1.0, 1e-23, 1e3])
    kind = ctx.choice(["flat", "smooth", "lines", "rough"])
    long = nf != F and nf * F > 1e6
    if long and kind not in ("flat", "smooth"):
        # torch.interpolate takes floor() of the source position in single
        # precision whatever the dtype: only a smooth background can tell
        # a wrong filter from that on a long grid
        kind = "smooth"
    nyq = sr / 2
    hp = lp = None
    if ctx.rng.random() < 0.5:
        hp = ctx.choice([float(ctx.uniform(0, 0.6 * nyq)),
                         int(0.2 * nyq) or 1])
    if ctx.rng.random() < 0.4:
        lp = ctx.choice([float(ctx.uniform(0.65, 1.0) * nyq),
                         int(0.8 * nyq)])
    pdt = torch.float64 if amp < 1e-10 or ctx.slot(3) else torch.float32
    xdt = ctx.choice([torch.float32, torch.float64])
    psd = background(ctx, shape, sr, amp, kind)
    if inf_ok and nf == F and ctx.rng.random() < 0.1:
        psd[..., ctx.randint(0, F - 2)] = np.inf
    p = dict(sr=sr, N=N, pad=pad, B=B, C=C, rank=rank, nf=nf, amp=amp,
             kind=kind, hp=hp, lp=lp, pdt=pdt, xdt=xdt)
    ctx.params(**{k: str(v) if "dt" in k else v for k, v in p.items()})
    p["psd"] = torch.from_numpy(psd).to(pdt)
    p["F"] = F
    p["long"] = long
    return p


def series(ctx, p, off=True):
    x = ctx.rng.standard_normal((p["B"], p["C"], p["N"]))
    k = ctx.choice(["white", "red", "tone"])
    if k == "red":
        x = np.cumsum(x, -1)
    elif k == "tone":
        x = x * 0.01 + np.sin(np.arange(p["N"]) * ctx.uniform(0.1, 3))
    if off:
        x = x + ctx.uniform(-3, 3)
    return torch.from_numpy(x * p["amp"]).to(p["xdt"])


def rank3(psd):
    psd = to_np(psd).astype(float)
    while psd.ndim < 3:
        psd = psd[None]
    return psd


def tols(p, x, gain):
    """(rtol on the row maximum, absolute floor)"""
    e = 1e-13 if p["pdt"] == torch.float64 else 2e-5
    if p["xdt"] == torch.float32:
        e = max(e, 2e-6)
    x = to_np(x).astype(float)
    return 2e-5 if p["long"] else 1e-6, e * gain * np.abs(x).max() * 4


def band(p):
    return dict(highpass=p["hp"], lowpass=p["lp"])


def fdur(p, odd=0):
    """seconds whose truncation is unambiguous"""
    return (2 * p["pad"] + odd + 0.5) / p["sr"]


@family("P09", quick=900, thorough=20000)
def direct(ctx):
    p = setting(ctx)
    x = layout(ctx, series(ctx, p))
    crop = ctx.slot(4) != 0
    form = ctx.cycle(["float", "module", "module-odd", "window"], 3)
    if form == "module-odd" and 2 * p["pad"] + 1 > p["N"] - 1:
        form = "module"
    if form == "window":
        w = ctx.uniform(0, 1, 2 * p["pad"])
        out = ctx.call(whiten, x, p["psd"], torch.from_numpy(w), p["sr"],
                       crop=crop, **band(p))
    elif form == "float":
        w = hann(2 * p["pad"])
        kw = {} if crop and ctx.slot(2) else dict(crop=crop)
        odd = ctx.choice([0, 1])  # half a sample more makes no difference
        out = ctx.call(whiten, x, p["psd"], fdur(p, odd), p["sr"], **kw,
                       **band(p))
    else:
        odd = int(form == "module-odd")
        w = hann(2 * p["pad"] + odd)
        m = ctx.call(Whiten, fdur(p, odd), p["sr"], **band(p))
        kw = {} if crop and ctx.slot(2) else dict(crop=crop)
        out = ctx.call(m, x, p["psd"], **kw)
    want, gain = reference(to_np(x).astype(float), rank3(p["psd"]), p["pad"],
                           w, p["sr"], p["hp"], p["lp"], crop)
    r, a = tols(p, x, gain)
    ctx.params(form=form, crop=crop)
    ctx.close(out, want, "filter", form, rtol=r, atol=a, scale="rowmax")
    ctx.check(out.isfinite().all(), "not-finite", "whitened series")
    ctx.event("samples_checked", want.size)
    ctx.state(form, p["rank"], p["N"] % 4, p["hp"] is None, p["lp"] is None,
              p["nf"] > p["F"], p["nf"] < p["F"], crop, p["kind"])


@family("P09", quick=300, thorough=6000)
def laws(ctx):
    """relations between calls; no reference filter involved"""
    p = setting(ctx)
    p["xdt"] = torch.float64
    x = series(ctx, p, off=False)
    fd, sr = fdur(p), p["sr"]
    if ctx.choice([0, 1]):
        def f(x, psd=p["psd"], **kw):
            return ctx.call(whiten, x, psd, fd, sr, **kw, **band(p))
    else:
        m = ctx.call(Whiten, fd, sr, **band(p))

        def f(x, psd=p["psd"], **kw):
            return ctx.call(m, x, psd, **kw)
    y = to_np(f(x)).astype(float)
    top = max(np.abs(y).max(), np.abs(to_np(f(x, crop=False))).max())
    e = dict(rtol=0, atol=3e-6 * top + 1e-12 * top)
    # rounding of the input is amplified by the filter's largest gain
    _, gain = reference(to_np(x), rank3(p["psd"]), p["pad"],
                        hann(2 * p["pad"]), sr, p["hp"], p["lp"], True)
    e["atol"] += gain * float(x.abs().max()) * 1e-12
    law = ctx.cycle(["offset", "linear", "crop", "ranks", "gain", "split",
                     "shift", "again"])
    ctx.params(law=law)
    if law == "offset":
        c = ctx.randn(p["B"], p["C"], 1) * 50 * p["amp"]
        e["atol"] += gain * float(c.abs().max()) * 1e-12
        ctx.close(f(x + c), y, "offset", "constant added", **e)
    elif law == "linear":
        z = series(ctx, p)
        a, b = ctx.uniform(-2, 2), ctx.uniform(-2, 2)
        zy = to_np(f(z)).astype(float)
        e["atol"] = 4 * e["atol"] + 2e-6 * np.abs(zy).max()
        e["atol"] += gain * float(z.abs().max()) * 1e-11
        ctx.close(f(a * x + b * z), a * y + b * zy, "linear", "", **e)
    elif law == "crop":
        full = to_np(f(x, crop=False))
        ctx.check(full.shape == tuple(x.shape), "uncropped-shape",
                  str(full.shape))
        pad = p["pad"]
        ctx.close(y, full[..., pad:-pad].astype(float), "crop", "", rtol=0,
                  atol=1e-6 * top)
    elif law == "ranks":
        full = p["psd"]
        while full.ndim < 3:
            full = full[None]
        full = full.expand(p["B"], p["C"], -1).contiguous()
        ctx.close(f(x, full), y, "ranks", "expanded background", **e)
    elif law == "gain":
        g = ctx.loguniform(0.1, 10)
        e["atol"] *= 3 / g + 1
        ctx.close(f(x, p["psd"] * g * g), y / g, "gain",
                  "background scaled", **e)
    elif law == "split":
        some = [(i, j) for i in range(p["B"]) for j in range(p["C"])]
        if len(some) > 16:
            ctx.rng.shuffle(some)
        full = p["psd"]
        while full.ndim < 3:
            full = full[None]
        full = full.expand(p["B"], p["C"], -1)
        for i, j in some[:16]:
            o = f(x[i:i + 1, j:j + 1], full[i:i + 1, j:j + 1])
            ctx.close(o[0, 0], y[i, j], "split", "element alone", **e)
    elif law == "again":  # one entry of the background changes
        full = p["psd"]
        while full.ndim < 3:
            full = full[None]
        full = full.expand(p["B"], p["C"], -1).contiguous()
        b, c = ctx.randint(0, p["B"] - 1), ctx.randint(0, p["C"] - 1)
        f(x, full)
        other = full.clone()
        other[b, c] *= 4
        want = y.copy()
        want[b, c] /= 2
        ctx.close(f(x, other), want, "again", "one background scaled by 4",
                  **e)
        ctx.close(f(x, full), y, "again", "first background again", **e)
    else:  # whitening is a (circular) convolution
        s = ctx.randint(1, p["N"] - 1)
        full = to_np(f(x, crop=False)).astype(float)
        rolled = f(torch.roll(x, s, -1), crop=False)
        ctx.close(rolled, np.roll(full, s, -1), "shift", "rolled input", **e)
    ctx.event("laws_checked")
    ctx.state(law, p["rank"], p["N"] % 2, p["hp"] is None, p["lp"] is None)


@family("P09", quick=300, thorough=6000)
def fitted(ctx):
    """the fitted interface, at the kernel's own resolution"""
    p = setting(ctx, inf_ok=False)
    p["rank"] = 2
    psd = background(ctx, (p["C"], p["F"]), p["sr"], p["amp"], p["kind"])
    p["nf"] = p["F"]
    store = torch.float32 if p["amp"] > 1e-3 and ctx.slot(3) == 0 else None
    if ctx.slot(5) == 0:
        p["pdt"] = torch.float64
    psd = torch.from_numpy(psd).to(p["pdt"])
    p["psd"] = psd
    # keep int(kernel_length * sample_rate) away from its edges
    kl = (p["N"] + 0.25) / p["sr"]
    kw = {} if store is None else dict(dtype=store)
    m = ctx.call(FixedWhiten, p["C"], kl, p["sr"], **kw)
    x = layout(ctx, series(ctx, p))
    rows = [r.clone() for r in psd]
    odd = ctx.choice([0, 1])
    ctx.call(m.fit, fdur(p, odd), *rows, **band(p))
    crop = ctx.slot(4) != 0
    out = ctx.call(m, x, **({} if crop and ctx.slot(2) else dict(crop=crop)))
    w = hann(2 * p["pad"])
    want, gain = reference(to_np(x).astype(float), rank3(psd), p["pad"], w,
                           p["sr"], p["hp"], p["lp"], crop)
    r, a = tols(p, x, gain)
    if store is not None:
        a = max(a, 1e-5 * gain * float(x.abs().max()))
    ctx.close(out, want, "fitted-filter", "FixedWhiten", rtol=r, atol=a,
              scale="rowmax")
    o2 = ctx.call(whiten, x, psd, fdur(p, odd), p["sr"], crop=crop, **band(p))
    ctx.close(out, to_np(o2).astype(float), "fitted-vs-direct", "", rtol=r,
              atol=a, scale="rowmax")
    ctx.event("fitted_checked")
    ctx.event("samples_checked", want.size)
    # every other length is refused
    bad = p["N"] + ctx.choice([-1, 1, 2, p["N"]])
    ctx.raises(ValueError, "wrong-length-accepted", m,
               torch.randn(1, p["C"], bad), msg=f"{bad} for {p['N']}")
    ctx.state("fit", p["C"], p["N"] % 4, p["hp"] is None, p["lp"] is None,
              str(store), crop)


@family("P09", quick=150, thorough=2500)
def fitted_time(ctx):
    """fitting on timeseries or on spectra of another resolution"""
    p = setting(ctx, inf_ok=False)
    p["C"] = ctx.randint(1, 3)
    p["xdt"] = torch.float64
    sr, N, F = p["sr"], p["N"], p["F"]
    kl = (N + 0.25) / sr
    m = ctx.call(FixedWhiten, p["C"], kl, sr)
    x = series(ctx, p)
    how = ctx.cycle(["welch", "welch", "spectrum"])
    if how == "welch":
        nper = ctx.choice([N, N, ctx.randint(8, 2 * N)])
        over = ctx.choice([None, 0, ctx.randint(0, nper - 1), nper // 2])
        L = ctx.randint(3, 10) * nper + ctx.randint(0, nper)
        data = ctx.rng.standard_normal((p["C"], L))
        data = signal.lfilter([1], [1, -0.5], data) * p["amp"]
        kw = dict(fftlength=(nper + 0.25) / sr)
        if over is None:
            nov = int((nper + 0.25) / sr / 2 * sr)
        else:
            nov = over
            kw["overlap"] = 0 if over == 0 else (over + 0.125) / sr
        rows = [torch.from_numpy(d) for d in data]
        est = signal.welch(
            data, fs=sr, window=hann(nper), nperseg=nper,
            noverlap=nov, average="median", detrend="constant", axis=-1)[1]
        ctx.params(nper=nper, overlap=over, L=L)
    else:
        nf = ctx.randint(max(4, F // 2), 3 * F)
        est = background(ctx, (p["C"], nf), sr, p["amp"], p["kind"])
        rows = [torch.from_numpy(d) for d in est]
        kw = {}
        ctx.params(nf=nf)
    ctx.call(m.fit, fdur(p), *rows, **kw, **band(p))
    w = hann(2 * p["pad"])
    xn = to_np(x)
    if est.shape[-1] == F:
        out = ctx.call(m, x)
        want, gain = reference(xn, est[None], p["pad"], w, sr, p["hp"],
                               p["lp"], True)
        ctx.close(out, want, "fitted-welch", how, rtol=2e-6,
                  atol=gain * np.abs(xn).max() * 1e-10, scale="rowmax")
    else:
        # Another resolution: the spectrum is resampled, in a way the
        # documentation leaves open.  Whatever the rule, the fitted filter is
        # the truncation of a spectrum lying bin by bin between the nearest
        # background bins; decide by the customary rules (torch's own
        # nearest-bin index, which is rounded in single precision).
        t = torch.from_numpy(est[None])
        near, near2 = (
            to_np(torch.nn.functional.interpolate(t, size=(F,), mode=q))[0]
            for q in ("nearest", "nearest-exact"))
        out = to_np(ctx.call(m, x)).astype(float)
        errs = []
        for e in (near, near2, resample(est, F)):
            want, gain = reference(xn, e[None], p["pad"], w, sr, p["hp"],
                                   p["lp"], True)
            errs.append(np.abs(out - want).max() / (
                2e-6 * np.abs(want).max()
                + gain * np.abs(xn).max() * 1e-10 + 1e-30))
        ctx.check(min(errs) <= 1, "fitted-resampled",
                  f"{how}: neither nearest nor linear resampling of the "
                  f"background explains the output (x tolerance: {errs})")
    ctx.event("fitted_checked")
    ctx.state("time", how, est.shape[-1] == F, p["C"])


@family("P09", quick=40, thorough=500)
def variance(ctx):
    """noise drawn from the background has unit variance once whitened"""
    sr = ctx.choice([256.0, 512, 1024])
    N = ctx.choice([4096, 4097, 6000])
    B, C = 4, 2
    amp = ctx.choice([1.0, 1e-23])
    F = N // 2 + 1
    f = np.arange(F) * sr / N
    rank = ctx.cycle([1, 2, 3])
    psd = np.empty((B, C, F))
    for i in range(B):
        for j in range(C):
            ii, jj = (i if rank == 3 else 0), (j if rank >= 2 else 0)
            k = 0.4 + 0.2 * ii + 0.3 * jj
            psd[i, j] = k * (1 + (0.1 * sr / (f + 0.05 * sr))**2) * amp**2
    g = ctx.rng.standard_normal((B, C, F)) + 1j * ctx.rng.standard_normal(
        (B, C, F))
    x = np.fft.irfft(g * np.sqrt(psd * sr * N / 4), n=N)
    x = torch.from_numpy(x + 30 * amp)
    lo, hi = 0.0, sr / 2
    if ctx.slot(2):
        lo = ctx.uniform(0.05, 0.3) * sr / 2
    if ctx.slot(3) == 0:
        hi = ctx.uniform(0.6, 0.9) * sr / 2
    kw = dict(highpass=lo or None, lowpass=hi if hi < sr / 2 else None)
    fd = ctx.choice([0.5, 1.0, 2.0])
    q = torch.from_numpy(psd)
    q = {1: q[0, 0], 2: q[0], 3: q}[rank]
    form = ctx.cycle(["fn", "module", "fit"])
    ctx.params(sr=sr, N=N, rank=rank, form=form, fduration=fd, **kw)
    if form == "fn":
        y = ctx.call(whiten, x, q, fd, sr, **kw)
    elif form == "module" or rank == 3:
        y = ctx.call(ctx.call(Whiten, fd, sr, **kw), x, q)
    else:
        m = ctx.call(FixedWhiten, C, (N + 0.25) / sr, sr)
        ctx.call(m.fit, fd, *(q.expand(C, -1)), **kw)
        y = ctx.call(m, x)
    frac = (hi - lo) / (sr / 2)
    v = to_np(y).astype(float).var(-1) / frac
    ctx.check((np.abs(v - 1) < 0.25).all(), "variance",
              f"variance over the band's share {v.min():.3f}..{v.max():.3f}")
    ctx.check(abs(v.mean() - 1) < 0.1, "variance-mean", f"{v.mean():.4f}")
    # the stop band is empty
    n = y.shape[-1]
    P = np.abs(np.fft.rfft(to_np(y) * np.hanning(n), axis=-1))**2
    fy = np.fft.rfftfreq(n, 1 / sr)
    margin = 8 / fd
    inside = (fy > lo + margin) & (fy < hi - margin)
    outside = (fy < lo - margin) | (fy > hi + margin)
    if outside.sum() > 5:
        ratio = P[..., outside].mean() / P[..., inside].mean()
        ctx.check(ratio < 1e-2, "stop-band", f"power ratio {ratio:.2e}")
    # and flat inside
    h = np.array_split(np.where(inside)[0], 4)
    lev = np.array([P[..., k].mean() for k in h])
    ctx.check(lev.max() / lev.min() < 1.35, "not-flat", f"{lev}")
    ctx.event("variance_checked")
    ctx.state("var", form, rank, lo > 0, hi < sr / 2, amp)


@family("P09", quick=60, thorough=600)
def refusals(ctx):
    p = setting(ctx, inf_ok=False)
    N, sr, C = p["N"], p["sr"], p["C"]
    x = torch.randn(2, C, N, dtype=torch.float64)
    psd = torch.ones(C, N // 2 + 1, dtype=torch.float64)
    over = (N + 1) // 2 + ctx.randint(0, 3)
    name = ctx.cycle(["float", "module", "count"])
    ctx.params(case=name, pad=over)
    if name == "float":
        ctx.raises(ValueError, "short-accepted", whiten, x, psd,
                   (2 * over + 0.5) / sr, sr, msg="kernel <= impulse")
        # one sample more than the impulse is enough
        pad = (N - 1) // 2
        out = ctx.call(whiten, x, psd, (2 * pad + 0.5) / sr, sr)
        ctx.check(out.shape[-1] == N - 2 * pad, "shape", str(out.shape))
    elif name == "module":
        m = ctx.call(Whiten, (2 * over + 0.5) / sr, sr)
        ctx.raises(ValueError, "short-accepted", m, x, psd,
                   msg="kernel <= impulse")
    else:
        m = ctx.call(FixedWhiten, C, (N + 0.25) / sr, sr)
        k = ctx.choice([n for n in (C - 1, C + 1, 2 * C) if n != C])
        ctx.raises(ValueError, "count-accepted", m.fit, fdur(p),
                   *[psd[0]] * k, msg=f"{k} backgrounds for {C}")
        ctx.raises(ValueError, "unfitted-runs", m, x, msg="after that")
    ctx.state(name, p["N"] % 2)
