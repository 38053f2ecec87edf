"""P24: IIR filtering applies the designed filter forwards and backwards."""

import copy
import warnings

import numpy as np
import torch
from scipy import signal

from ml4gw.transforms.iirfilter import IIRFilter
from vlib.core import family

TECHNIQUE = ("output monitors against scipy's design and second-order "
             "filtering in double precision; impulse responses observed for "
             "phase and magnitude")
NOTE = ("The reference is scipy's zero-pole-gain design, filtered forwards "
        "and backwards from rest; impulse responses give the zero-phase and "
        "squared-magnitude laws independently.")
RULE = ("seeded random families, orders, bands, ripples and shapes; distinct "
        "by those classes")
ASSUMPTIONS = [
    "designs whose poles lie inside radius 0.9995 (0.97 in single precision) "
    "and whose sections do not amplify rounding beyond use",
    "data of the module's own precision",
]
REQUIRED = {"large": 30, "filters_checked": 300, "series_checked": 600,
            "impulse_responses": 100, "tensor_parameters": 100,
            "refusals": 40, "linearity": 100}


def design(ctx, limit, loss):
    """(keyword arguments, zpk, sos, band class)"""
    while True:
        ftype = ctx.choice(["butter", "cheby1", "cheby2", "ellip", "bessel"])
        btype = ctx.choice(["low", "high", "band", "stop", "lowpass",
                            "highpass", "bandpass", "bandstop"])
        N = ctx.randint(1, 12 if btype in ("low", "high", "lowpass",
                                           "highpass") else 9)
        fs = ctx.choice([None, 256, 1024, 2048, 100.0, 10.5, 22.05,
                         float(ctx.loguniform(0.5, 1e4))])
        ny = 1.0 if fs is None else fs / 2
        if btype.startswith(("low", "high")):
            Wn = ny * ctx.loguniform(0.02, 0.95)
        else:
            a, b = np.sort(ny * ctx.loguniform(0.02, 0.95, 2))
            if b < 1.1 * a:
                continue
            Wn = [float(a), float(b)]
        kw = dict(btype=btype, ftype=ftype, fs=fs)
        if ftype in ("cheby1", "ellip"):
            kw["rp"] = ctx.choice([0.1, 0.5, 1.0, 3.0, ctx.uniform(0.05, 4)])
        if ftype in ("cheby2", "ellip"):
            kw["rs"] = ctx.choice([20.0, 40.0, ctx.uniform(12, 60)])
        if ftype == "ellip" and kw["rs"] < 3 * kw["rp"]:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            z, p, k = signal.iirfilter(N, Wn, output="zpk", **kw)
        r = np.abs(p).max() if len(p) else 0
        if not np.isfinite(r) or r > limit:
            continue
        sos = signal.zpk2sos(z, p, k)
        # what rounding alone may do has to stay small
        noise = noise_gain(sos, r)
        if noise > loss:
            continue
        return N, Wn, kw, (z, p, k), sos, r, noise


def noise_gain(sos, r):
    """how far rounding to one unit at every step can move an output of both
    passes, for inputs up to one"""
    imp = np.zeros(int(min(40000, 200 + 25 / (1 - r))))
    imp[0] = 1

    def size(sections):
        h = signal.sosfilt(np.array(sections), imp) if len(sections) else imp
        return max(1.0, np.abs(h).sum())

    total, whole = 0.0, size(sos)
    for i, s in enumerate(sos):
        peak = max(size(sos[:i]) * np.abs(s[:3]).sum(), size(sos[: i + 1]))
        pole = np.abs(signal.lfilter([1.0], s[3:], imp)).sum()
        total += peak * max(1.0, pole) * size(sos[i + 1 :])
    return 2 * total * whole


def apply(sos, x):
    y = signal.sosfilt(sos, x, axis=-1)[..., ::-1]
    return signal.sosfilt(sos, y, axis=-1)[..., ::-1]


def build(ctx, N, Wn, kw, kind="scalar"):
    kw = dict(kw)
    if kind != "scalar":
        dt = torch.float64
        Wn = torch.tensor(Wn, dtype=dt)
        for k in ("rp", "rs"):
            if k in kw:
                kw[k] = torch.tensor(kw[k], dtype=dt)
    return ctx.call(IIRFilter, N, Wn, **kw)


def data(ctx, *shape):
    x = ctx.rng.standard_normal(shape)
    kind = ctx.choice(["noise", "tone", "step", "walk"])
    t = np.arange(shape[-1])
    if kind == "tone":
        x = 0.1 * x + np.sin(ctx.uniform(0.01, 3) * t)
    if kind == "step":
        x = 0.1 * x + (t > shape[-1] // 2)
    if kind == "walk":
        x = np.cumsum(x, -1) / 10
    return x * ctx.choice([1.0, 1.0, 1e-20, 1e5])


@family("P24", quick=350, thorough=7000, priority=1)
def against_scipy(ctx):
    single = ctx.slot(4) == 3
    N, Wn, kw, zpk, sos, r, noise = design(
        ctx, *((0.97, 2e4) if single else (0.9995, 1e9)))
    kind = ctx.cycle(["scalar", "tensor"])
    n = ctx.choice([1, 2, ctx.randint(1, 50), ctx.randint(50, 1500)])
    lead = ctx.choice([(), (1,), (4,), (2, 3), (3, 1, 2)])
    big = {6: "length", 11: "batch", 14: "batch"}.get(ctx.slot(20))
    if big == "length":
        n = ctx.choice([2048, 4097, 8192, 16385, ctx.randint(1500, 40000)])
        lead = ctx.choice([(), (2,), (1, 2)])
    elif big:
        n = ctx.randint(1, 300)
        lead = ctx.choice([(33,), (65,), (9, 17), (2, 1, 33), (128, 1)])
    if big:
        ctx.event("large")
    dtype = torch.float32 if single else torch.float64
    ctx.params(N=N, Wn=Wn, **kw, kind=kind, n=n, lead=lead, radius=r,
               dtype=str(dtype))
    f = build(ctx, N, Wn, kw, kind)
    if single:
        f = f.float()
    amp = data(ctx, *lead, n)
    if single:
        amp = np.clip(amp, -1e5, 1e5)
        if np.abs(amp).max() < 1e-15:
            amp = amp * 1e20
    x = torch.tensor(amp, dtype=dtype)
    xc = x.clone()
    out = ctx.call(f, x)
    ctx.check(torch.equal(x, xc), "input_altered", "input altered")
    ctx.need(tuple(out.shape) == (*lead, n), "shape", f"{tuple(out.shape)}")
    want = apply(sos, x.double().numpy())
    e = 1.2e-7 if single else 2.3e-16
    tol = 4 * e * noise
    ctx.close(out, want, "filtered", f"{kw['ftype']} order {N} {kw['btype']}",
              rtol=0, atol=tol * np.abs(x.double().numpy()).max(-1,
                                                                keepdims=True)
              + 1e-300, dtype=dtype)
    ctx.maximum("tolerance_used", tol)
    top = np.abs(x.double().numpy()).max()
    ctx.maximum("error_over_tolerance", float(np.abs(
        out.double().numpy() - want).max() / (tol * top + 1e-300)))
    ctx.event("filters_checked")
    ctx.event("series_checked", int(np.prod(lead, dtype=int)))
    ctx.event("tensor_parameters", int(kind == "tensor"))
    if kind == "tensor":
        g = build(ctx, N, Wn, kw)
        if single:
            g = g.float()
        ctx.equal(ctx.call(g, x), out, "parameters",
                  "tensor and scalar parameters differ")
    ctx.equal(ctx.call(f, x), out, "repeat", "a second call differs")
    ctx.equal(copy.deepcopy(f)(x), out, "copy", "a copy differs")
    # linearity and independence of the series
    y = torch.tensor(ctx.rng.standard_normal((*lead, n)) * float(
        x.abs().max()), dtype=dtype)
    p, q = ctx.uniform(-2, 2), ctx.uniform(-2, 2)
    ctx.close(ctx.call(f, p * x + q * y), p * out + q * f(y), "linear",
              "not linear", rtol=0,
              atol=4 * tol * (abs(p) + abs(q) + 1) * max(float(y.abs().max()),
                                                   1e-300))
    ctx.event("linearity")
    if len(lead):
        i = tuple(ctx.randint(0, k - 1) for k in lead)
        wild = torch.full_like(x, ctx.choice([float("nan"), 1e12]))
        wild[i] = x[i]
        ctx.close(ctx.call(f, wild)[i], out[i], "independence",
                  "another series leaks in", rtol=0,
                  atol=tol * float(x.abs().max()))
    ctx.state(kw["ftype"], kw["btype"], N, len(lead), single, kind,
              min(n // 50, 2))


@family("P24", quick=150, thorough=3000)
def impulse(ctx):
    """Zero phase and squared magnitude, seen on a long impulse response"""
    N, Wn, kw, zpk, sos, r, noise = design(ctx, 0.985, 1e9)
    n = 4096
    ctx.params(N=N, Wn=Wn, **kw, radius=r)
    f = build(ctx, N, Wn, kw, ctx.choice(["scalar", "tensor"]))
    x = torch.zeros(2, n, dtype=torch.float64)
    c = n // 2
    x[0, c] = 1
    k = ctx.randint(1, 600)
    x[1, c - k] = 2.5
    h = ctx.call(f, x).numpy()
    noise *= 1e-15
    ctx.close(h[0, c + 1 :], h[0, 1:c][::-1], "zero_phase",
              "the impulse response is not symmetric", rtol=0,
              atol=1e-9 * np.abs(h[0]).max() + noise + 2 * r ** (n / 2) * n)
    ctx.close(h[1, : n - k][200:-200], 2.5 * h[0, k:][200:-200], "shift",
              "a shifted impulse", rtol=0, atol=1e-9 * np.abs(h[0]).max() +
              3 * noise + 20 * r ** (n / 2 - 800) * n)
    H = np.fft.rfft(np.roll(h[0], -c))
    w, ref = signal.freqz_zpk(*zpk, worN=np.linspace(0, np.pi, n // 2 + 1))
    mag = np.abs(ref) ** 2
    ctx.close(np.abs(H), mag, "magnitude", "response is not the design's "
              "squared magnitude", rtol=1e-8, scale="max", atol=1e-9 +
              30 * noise + 2 * n * r ** (n / 2) * np.abs(h[0]).max())
    ctx.check(float(np.abs(H.imag).max()) <= 1e-8 * mag.max() + 30 * noise + n * 2 *
              r ** (n / 2), "zero_phase", "phase is not zero")
    # what the band type promises
    fs = kw["fs"] or 2.0
    fr = w / (2 * np.pi) * fs
    b = kw["btype"]
    ends = np.atleast_1d(Wn)
    if b.startswith("low"):
        inside = fr < 0.2 * ends[0]
        out = fr > min(6 * ends[0], 0.99 * fs / 2)
    elif b.startswith("high"):
        inside = fr > min(6 * ends[0], 0.995 * fs / 2)
        out = fr < 0.1 * ends[0]
    else:
        out = inside = np.zeros(len(fr), dtype=bool)
    if inside.any() and kw["ftype"] not in ("bessel", "cheby2") and kw.get(
            "rp", 1) <= 1 and N > 1:
        ctx.check(np.abs(H)[inside].min() > 10 ** (-2 * 1.05 / 10),
                  "pass_band", "attenuated in the pass band")
    if out.any() and N > 2 and kw["ftype"] != "cheby2" and kw.get(
            "rs", 99) > 30:
        ctx.check(np.abs(H)[out].max() < 0.15, "stop_band",
                  "passed in the stop band")
    ctx.maximum("impulse_noise", noise)
    ctx.event("impulse_responses")
    ctx.state("impulse", kw["ftype"], b, N)


@family("P24", quick=50, thorough=200)
def refusals(ctx):
    kind = ctx.cycle(["no_rp", "no_rs", "nyquist", "order", "band", "ftype",
                      "one_edge"])
    ctx.params(kind=kind)
    a, kw = (4, 0.3), dict(btype="low")
    if kind == "no_rp":
        kw.update(ftype=ctx.choice(["cheby1", "ellip"]), rs=30)
    elif kind == "no_rs":
        kw.update(ftype=ctx.choice(["cheby2", "ellip"]), rp=1)
    elif kind == "nyquist":
        a = (4, ctx.choice([1.5, 600]))
        kw.update(fs=ctx.choice([None, 1.0]))
    elif kind == "order":
        a = (4, [0.3, 0.1])
        kw.update(btype="nonsense")
    elif kind == "band":
        a = (4, 0.3)
        kw.update(btype=ctx.choice(["bandpass", "stop"]))
    elif kind == "ftype":
        kw.update(ftype="gauss")
    elif kind == "one_edge":
        a = (4, [0.1, 0.3])
        kw.update(btype="lowpass")
    ctx.raises(Exception, f"refuse_{kind}", IIRFilter, *a, **kw,
               msg=f"{a} {kw}")
    ctx.event("refusals")
    ctx.state("refuse", kind)
