"""P08: power and cross spectral densities against Welch's definition."""

import numpy as np
import torch
from scipy import signal

from ml4gw.spectral import fast_spectral_density, spectral_density
from ml4gw.transforms import SpectralDensity
from vlib.core import family, to_np
from vlib.ids import layout

TECHNIQUE = ("runtime monitor: every returned density against scipy's "
             "Welch/CSD and against a direct DFT sum, plus algebraic laws")
NOTE = ("Every bin of every returned density is compared with scipy.signal "
        "welch/csd (float64) over ranks, pairings, odd/even segments, "
        "strides, windows, averages and amplitudes; tolerances at rounding.")
RULE = (
    "seeded random rank/pairing/segment/stride/window/average/amplitude; "
    "distinct by these classes"
)
ASSUMPTIONS = ["scipy.signal implements Welch's definition (cross-checked "
               "with a direct DFT sum on small cases)"]
REQUIRED = {"large": 40, "bins_checked": 50000, "csd_pairings_checked": 200,
            "laws_checked": 300, "dft_sums_checked": 50}


F = [torch.float32, torch.float64]


def series(ctx, shape, amp, kind):
    x = ctx.rng.standard_normal(shape)
    if kind == "red":
        x = np.cumsum(x, -1) * 0.1 + x
    elif kind == "offset":
        x = x + ctx.uniform(-30, 30)
    elif kind == "tone":
        t = np.arange(shape[-1])
        x = 1e-3 * x + np.sin(2 * np.pi * ctx.uniform(0.01, 0.49) * t)
    return x * amp


def setting(ctx):
    rank = ctx.cycle([1, 2, 3])
    nper = ctx.choice([4, 5, 8, 9, ctx.randint(4, 64), ctx.randint(4, 64),
                       ctx.randint(65, 257)])
    nst = ctx.choice([nper // 2, nper, ctx.randint(1, nper),
                      ctx.randint(1, nper)])
    nst = max(nst, 1)
    nseg = ctx.choice([1, 2, 3, 4, ctx.randint(1, 12), ctx.randint(1, 30)])
    extra = ctx.choice([0, ctx.randint(0, nst - 1)])
    B, C = ctx.randint(1, 4), ctx.randint(1, 4)
    if ctx.slot(20) == 11:  # one axis at the sizes of real use
        ctx.event("large")
        what = ctx.choice(["segment", "segments", "channels", "batch"])
        if what == "segment":
            nper = ctx.choice([1024, 2048, 4096, ctx.randint(258, 5000)])
            nst = ctx.choice([nper // 2, nper, ctx.randint(nper // 4, nper)])
            nseg = ctx.randint(1, 6)
            B, C = ctx.randint(1, 2), ctx.randint(1, 2)
        elif what == "segments":
            nseg = ctx.choice([64, 65, 128, 129, 257, ctx.randint(30, 1100)])
            nper = ctx.randint(4, 16)
            nst = ctx.choice([max(nper // 2, 1), nper, ctx.randint(1, nper)])
            B, C = ctx.randint(1, 2), ctx.randint(1, 2)
        else:
            n = ctx.choice([16, 17, 33, 64, 65, 130, ctx.randint(5, 300)])
            B, C = (B, n) if what == "channels" else (n, C)
            nper, nseg = min(nper, 32), min(nseg, 5)
            nst = min(nst, nper)
        extra = ctx.choice([0, ctx.randint(0, nst - 1)])
    T = (nseg - 1) * nst + nper + extra
    shape = {1: (T,), 2: (C, T), 3: (B, C, T)}[rank]
    amp = ctx.choice([1.0, 1.0, 1e-21, 1e-23, 1e4])
    kind = ctx.choice(["white", "red", "offset", "tone"])
    dtype = ctx.choice([torch.float32, torch.float64])
    fs = ctx.choice([1.0, 128.0, 2048.0, float(ctx.uniform(1, 5000))])
    average = ctx.choice(["mean", "median"])
    wkind = ctx.choice(["hann", "hann", "hamming", "boxcar", "random"])
    if wkind == "hann":
        w = torch.hann_window(nper, dtype=ctx.choice(F))
    elif wkind == "hamming":
        w = torch.hamming_window(nper, dtype=torch.float64)
    elif wkind == "boxcar":
        w = torch.ones(nper)
    else:
        w = torch.from_numpy(ctx.uniform(0.1, 1, nper))
    return dict(rank=rank, nper=nper, nst=nst, T=T, shape=shape, amp=amp,
                kind=kind, dtype=dtype, fs=fs, average=average, wkind=wkind,
                w=w, nseg=nseg)


def tensor(ctx, a, dtype):
    return layout(ctx, torch.from_numpy(a).to(dtype))


def welch(x, p, detrend):
    if not detrend:
        x = x - x.mean(-1, keepdims=True)
    return signal.welch(
        x, fs=p["fs"], window=to_np(p["w"]).astype(float), nperseg=p["nper"],
        noverlap=p["nper"] - p["nst"], average=p["average"],
        detrend="constant" if detrend else False, axis=-1)[1]


def csd(x, y, p):
    x = x - x.mean(-1, keepdims=True)
    y = y - y.mean(-1, keepdims=True)
    return signal.csd(
        x, y, fs=p["fs"], window=to_np(p["w"]).astype(float),
        nperseg=p["nper"], noverlap=p["nper"] - p["nst"],
        average=p["average"], detrend=False, axis=-1)[1]


def tol(x, p, y=None):
    """rounding: relative in each bin, plus the transform's floor"""
    w2 = float((to_np(p["w"]).astype(float) ** 2).sum())
    xm = np.abs(x).max()
    ym = xm if y is None else np.abs(y).max()
    # largest possible periodogram value
    top = xm * ym * p["nper"] * 4 / p["fs"] * p["nper"] / max(w2, 1e-9)
    return top


def desc(ctx, p):
    ctx.params(**{k: (str(v) if k == "dtype" else v) for k, v in p.items()
                  if k != "w"})


def scale_of(ctx, p):
    s = 1.0 / (p["fs"] * (p["w"].double() ** 2).sum())
    return s if ctx.slot(2) else float(s)


@family("P08", quick=900, thorough=20000)
def power(ctx):
    p = setting(ctx)
    desc(ctx, p)
    x = tensor(ctx, series(ctx, p["shape"], p["amp"], p["kind"]), p["dtype"])
    xn = to_np(x).astype(float)
    floor = 1e-13 * tol(xn, p)
    which = ctx.choice(["exact", "fast"])
    if which == "exact":
        out = ctx.call(spectral_density, x, p["nper"], p["nst"], p["w"],
                       scale_of(ctx, p), p["average"])
        want = welch(xn, p, True)
    else:
        w = p["w"].double() if p["wkind"] != "hann" else p["w"]
        out = ctx.call(fast_spectral_density, x, p["nper"], p["nst"], w,
                       scale_of(ctx, p), p["average"])
        want = welch(xn, p, False)
    ctx.check(not out.is_complex(), "psd-complex", "power must be real")
    ctx.close(out, want, f"welch-{which}", p["average"], rtol=1e-6,
              atol=floor, scale=np.abs(want))
    ctx.check(out.min() >= 0, "negative-power", "negative power")
    # (a rounded window lets the offset leak into all bins)
    if which == "fast" and p["wkind"] == "hann" and w.dtype == F[1]:
        ex = ctx.call(spectral_density, x, p["nper"], p["nst"], p["w"],
                      scale_of(ctx, p), p["average"])
        ctx.close(out[..., 2:], to_np(ex)[..., 2:], "fast-vs-exact",
                  "above the two lowest bins", rtol=1e-6, atol=floor * 30)
    ctx.event("bins_checked", want.size)
    # power scales with the square of the amplitude
    a = ctx.choice([2.0, -3.0, 0.5])
    fn = spectral_density if which == "exact" else fast_spectral_density
    big = ctx.call(fn, x.double() * a, p["nper"], p["nst"],
                   p["w"] if which == "exact" else w, scale_of(ctx, p),
                   p["average"])
    ctx.close(big, a * a * want, "amplitude-square", f"factor {a}",
              rtol=1e-6, atol=floor * a * a, scale=a * a * np.abs(want))
    ctx.event("laws_checked")
    ctx.state("psd", which, p["rank"], p["nper"] % 2, p["average"],
              p["wkind"], p["amp"] < 1e-10, p["nst"] == p["nper"],
              min(p["nseg"], 4), p["kind"])


@family("P08", quick=700, thorough=15000)
def cross(ctx):
    p = setting(ctx)
    desc(ctx, p)
    pair = {1: ["1-1"], 2: ["2-2", "2-1"], 3: ["3-3", "3-2"]}[p["rank"]]
    pair = ctx.choice(pair)
    s = p["shape"]
    if ctx.slot(5) == 0 and p["rank"] == 3:  # confusable sizes
        n = ctx.randint(1, 3)
        s = p["shape"] = (n, n, s[-1])
    yshape = {"1-1": s, "2-2": s, "2-1": s[1:], "3-3": s,
              "3-2": (s[0], s[-1])}[pair]
    yamp = ctx.choice([1.0, 1e-22, p["amp"]])
    x = tensor(ctx, series(ctx, s, p["amp"], p["kind"]), p["dtype"])
    y = series(ctx, yshape, yamp, ctx.choice(["white", "red", "offset"]))
    xn = to_np(x).astype(float)
    # correlate them, so the cross density has structure
    base = xn if y.shape == xn.shape else xn[..., 0, :]
    y = y + base / max(p["amp"], 1e-300) * yamp * 0.7
    ydt = p["dtype"] if ctx.slot(3) else torch.float64
    y = tensor(ctx, y, ydt)
    yn = to_np(y).astype(float)
    w = p["w"]
    if ydt == torch.float64:
        w = w.double() if ctx.slot(2) else w
    elif p["wkind"] not in ("hann", "boxcar"):
        w = w.float()
        p["w"] = w
    ctx.params(pair=pair, ydtype=str(ydt))
    yb = yn
    if pair == "3-2":
        yb = np.broadcast_to(yn[:, None], xn.shape)
    elif pair == "2-1":
        yb = np.broadcast_to(yn[None], xn.shape)
    want = csd(xn, yb, p)
    out = ctx.call(fast_spectral_density, x, p["nper"], p["nst"], w,
                   scale_of(ctx, p), p["average"], y=y)
    ctx.check(out.is_complex(), "csd-real", "cross density must be complex")
    # float32 second series go through a float32 transform
    e = 1e-13 if ydt == torch.float64 else 3e-6
    floor = e * tol(xn, p, yn)
    rt = 1e-6 if ydt == torch.float64 else 2e-5
    ctx.close(out, want, "csd", f"{pair} {p['average']}", rtol=rt, atol=floor,
              scale=np.abs(want))
    ctx.event("bins_checked", want.size)
    ctx.event("csd_pairings_checked")
    law = ctx.cycle(["self", "swap", "scale"], 3)
    if law == "self":
        o = ctx.call(fast_spectral_density, x.double(), p["nper"], p["nst"], w,
                     scale_of(ctx, p), p["average"], y=x.double())
        want = welch(xn, p, False)
        ctx.close(to_np(o).real, want, "self-csd", "real part", rtol=1e-6,
                  atol=1e-13 * tol(xn, p))
        ctx.close(to_np(o).imag, 0 * want, "self-csd", "imaginary part",
                  rtol=1e-6, atol=1e-13 * tol(xn, p))
    elif law == "swap" and y.shape == x.shape:
        o = ctx.call(fast_spectral_density, y.double(), p["nper"], p["nst"], w,
                     scale_of(ctx, p), p["average"], y=x.double())
        ctx.close(o, want.conj(), "swap", "swapped series", rtol=1e-6,
                  atol=1e-13 * tol(xn, p, yn), scale=np.abs(want))
    else:
        o = ctx.call(fast_spectral_density, -2 * x.double(), p["nper"],
                     p["nst"], w, scale_of(ctx, p), p["average"],
                     y=3 * y.double())
        ctx.close(o, -6 * want, "bilinear", "scaled series", rtol=1e-6,
                  atol=6e-13 * tol(xn, p, yn), scale=6 * np.abs(want))
    ctx.event("laws_checked")
    ctx.state("csd", pair, p["nper"] % 2, p["average"], p["wkind"],
              s[0] if len(s) == 3 else 0, len(s) > 1 and s[-2] == 1,
              str(ydt), p["amp"] < 1e-10, law)


@family("P08", quick=300, thorough=4000)
def transform(ctx):
    """the module form, with seconds instead of samples"""
    p = setting(ctx)
    fs = ctx.choice([64, 100, 128, 256.0])
    p["fs"] = float(fs)
    nper = p["nper"]
    over = None if ctx.slot(3) == 0 else ctx.choice([0, ctx.randint(0, nper - 1)])
    # half a sample of slack keeps int() away from its edges
    fft = (nper + 0.25) / fs
    kw = {}
    if over is not None:
        kw["overlap"] = (over + 0.125) / fs if over or ctx.slot(2) else 0
        nov = over
    else:
        nov = int(fft / 2 * fs)
    p["nst"] = nper - nov
    p["T"] = (p["nseg"] - 1) * p["nst"] + nper + ctx.randint(0, p["nst"] - 1)
    p["shape"] = p["shape"][:-1] + (p["T"],)
    if ctx.slot(2):
        kw["average"] = p["average"]
    else:
        p["average"] = "mean"
    if p["wkind"] != "hann" or ctx.slot(5) == 0:
        kw["window"] = p["w"]
    else:
        p["w"] = torch.hann_window(nper)
    fast = ctx.choice([True, False])
    desc(ctx, p)
    ctx.params(kw=str(sorted(kw)), fast=fast)
    t = ctx.call(SpectralDensity, fs, fft, fast=fast, **kw)
    x = tensor(ctx, series(ctx, p["shape"], p["amp"], p["kind"]), p["dtype"])
    xn = to_np(x).astype(float)
    out = ctx.call(t, x)
    want = welch(xn, p, not fast)
    ctx.close(out, want, "transform", "SpectralDensity", rtol=2e-6,
              atol=1e-12 * tol(xn, p), scale=np.abs(want))
    ctx.event("bins_checked", want.size)
    if fast:
        y = tensor(ctx, series(ctx, p["shape"], 1.0, "white"), torch.float64)
        o = ctx.call(t, x, y)
        wc = csd(xn, to_np(y), p)
        ctx.close(o, wc, "transform-csd", "SpectralDensity", rtol=2e-6,
                  atol=1e-12 * tol(xn, p, to_np(y)), scale=np.abs(wc))
    else:
        ctx.raises(NotImplementedError, "not-refused", t, x, x)
    ctx.state("mod", fast, p["rank"], nper % 2, p["average"], over is None,
              p["wkind"])


@family("P08", quick=80, thorough=1000)
def direct(ctx):
    """the definition summed by hand, no FFT and no scipy"""
    n, st, m = ctx.randint(4, 12), ctx.randint(1, 6), ctx.randint(1, 5)
    T = (m - 1) * st + n
    fs = ctx.uniform(1, 100)
    x = ctx.rng.standard_normal(T) + ctx.uniform(-2, 2)
    w = ctx.uniform(0.2, 1, n)
    ctx.params(n=n, stride=st, segments=m)
    t = np.arange(n)
    F = np.exp(-2j * np.pi * np.outer(np.arange(n // 2 + 1), t) / n)
    P = []
    for s in range(m):
        seg = x[s * st : s * st + n]
        seg = (seg - seg.mean()) * w
        P.append(np.abs(F @ seg) ** 2 / (fs * (w**2).sum()))
    P = np.array(P)
    dbl = np.full(n // 2 + 1, 2.0)
    dbl[0] = 1
    if n % 2 == 0:
        dbl[-1] = 1
    P = P * dbl
    bias = 1 + sum(1 / (2 * j + 1) - 1 / (2 * j)
                   for j in range(1, (m - 1) // 2 + 1))
    for avg, want in (("mean", P.mean(0)), ("median", np.median(P, 0) / bias)):
        out = ctx.call(spectral_density, torch.from_numpy(x), n, st,
                       torch.from_numpy(w), float(1 / (fs * (w**2).sum())),
                       avg)
        ctx.close(out, want, "definition", avg, rtol=1e-6,
                  atol=1e-12 * P.max())
    ctx.event("dft_sums_checked")
    ctx.state("direct", n % 2, m, st)


@family("P08", quick=150, thorough=1500)
def refusals(ctx):
    n = ctx.randint(8, 16)
    T = ctx.randint(20, 60)
    w, z = torch.hann_window(n), torch.randn
    B, C = ctx.randint(2, 4), ctx.randint(2, 4)
    f = fast_spectral_density
    cases = {
        "short": (spectral_density, z(n - 1), {}),
        "short-fast": (f, z(C, n - 1), {}),
        "4d": (spectral_density, z(1, B, C, T), {}),
        "4d-fast": (f, z(1, B, C, T), {}),
        "time": (f, z(T), dict(y=z(T + 1))),
        "time-2d": (f, z(C, T), dict(y=z(C, T - 1))),
        "1-2": (f, z(T), dict(y=z(C, T))),
        "2-2": (f, z(C, T), dict(y=z(C + 1, T))),
        "2-3": (f, z(C, T), dict(y=z(B, C, T))),
        "3-3": (f, z(B, C, T), dict(y=z(B + 1, C, T))),
        "3-3c": (f, z(B, C, T), dict(y=z(B, C + 1, T))),
        "3-1": (f, z(B, C, T), dict(y=z(T))),
        "3-2": (f, z(B, C, T), dict(y=z(B + 1, T))),
    }
    mods = {
        "mod-overlap": dict(overlap=n / 64),
        "mod-overlap2": dict(overlap=(n + 3) / 64),
        "mod-average": dict(average="Mean"),
        "mod-window": dict(window=torch.hann_window(n + 1)),
    }
    name = ctx.cycle(sorted(cases) + sorted(mods))
    ctx.params(case=name)
    if name in mods:
        ctx.raises(ValueError, "not-refused", SpectralDensity, 64, n / 64,
                   msg=name, **mods[name])
    else:
        fn, x, kw = cases[name]
        ctx.raises(ValueError, "not-refused", fn, x, n, n // 2, w, 1.0,
                   msg=name, **kw)
    ctx.state(name)
