"""P12: signal-to-noise ratios and rescaling."""

import numpy as np
import torch
from scipy import signal

from ml4gw.gw import compute_ifo_snr, compute_network_snr, reweight_snrs
from ml4gw.transforms import SnrRescaler
from vlib.core import family, to_np
from vlib.ids import layout
from vlib.stats import P_FALSE, binom_p

TECHNIQUE = ("runtime monitor: every SNR against the float64 integral, every "
             "rescaled signal against its single positive factor and target")
NOTE = ("SNRs per detector and network are compared with a float64 sum over "
        "the pass band; rescaled signals are checked to be the input times "
        "one positive factor shared by the detectors and to have the target "
        "SNR by the independent integral; permutation of the batch's own "
        "SNRs is checked as a multiset and in distribution.")
RULE = ("seeded batch/channels/length parity/background rank and resolution/"
        "pass band form/precision/amplitude; distinct by these classes")
ASSUMPTIONS = ["background positive and representable in its dtype inside the "
               "pass band; signals not identically zero when rescaled"]
REQUIRED = {"large": 40, "snrs_checked": 3000, "targets_checked": 1500,
            "permutations_checked": 200}


def resample(psd, F):
    """linear interpolation of bin centres (align_corners=False)"""
    n = psd.shape[-1]
    if n == F:
        return psd
    src = np.clip((np.arange(F) + 0.5) * n / F - 0.5, 0, None)
    i0 = np.minimum(np.floor(src).astype(int), n - 1)
    i1 = np.minimum(i0 + 1, n - 1)
    w = src - i0
    return psd[..., i0] * (1 - w) + psd[..., i1] * w


def reference(x, psd, sr, lo, hi):
    """(B, C) SNRs; lo/hi: first bin kept, first bin dropped"""
    x, psd = to_np(x).astype(float), to_np(psd).astype(float)
    T = x.shape[-1]
    h = np.fft.rfft(x, axis=-1) / sr
    while psd.ndim < 3:
        psd = psd[None]
    psd = np.broadcast_to(resample(psd, T // 2 + 1), h.shape)
    P = np.abs(h[..., lo:hi])**2 / psd[..., lo:hi]
    return np.sqrt(4 * P.sum(-1) * sr / T)


def setting(ctx):
    B, C = ctx.randint(1, 5), ctx.randint(1, 4)
    T = ctx.choice([8, 9, ctx.randint(10, 80), ctx.randint(80, 700)])
    if ctx.slot(20) == 13:
        ctx.event("large")
        what = ctx.choice(["length", "channels", "batch"])
        if what == "length":
            T = ctx.choice([4096, 8192, 16384, ctx.randint(700, 20000)])
            B, C = ctx.randint(1, 2), ctx.randint(1, 3)
        elif what == "channels":
            C = ctx.choice([5, 6, 8, 16, 17, 33, 65])
        else:
            B = ctx.choice([16, 17, 33, 64, 65, 128, 129, 257, 513])
        if what != "length":
            T = ctx.randint(8, 64)
    sr = ctx.choice([64, 128.0, 2048, 333.3, T * 1.0, T * 0.5])
    F = T // 2 + 1
    rank = ctx.cycle([2, 3, 1, "B1F"])
    nf = ctx.choice([F, F, F, F + 1, max(2, F - 1), 2 * F, 4 * F,
                     ctx.randint(3, 2 * F), ctx.randint(2 * F, 5 * F),
                     max(2, F // 5)])
    shape = {1: (nf,), 2: (C, nf), 3: (B, C, nf), "B1F": (B, 1, nf)}[rank]
    amp = ctx.choice([1.0, 1.0, 1e-23])
    dt = ctx.choice([torch.float32, torch.float64])
    pdt = torch.float64 if amp < 1 or ctx.slot(3) else torch.float32
    # torch.interpolate takes floor() of the source position in single
    # precision whatever the dtype, which shows only on long grids
    steep = nf == F or nf * F < 2e6
    psd = ctx.loguniform(0.05 if steep else 0.5, 20 if steep else 2,
                         shape) * amp**2
    loud = ctx.choice([ctx.loguniform(1e-2, 1e3), ctx.loguniform(1e-2, 1e3),
                       ctx.loguniform(1e-9, 1e6)])
    x = ctx.rng.standard_normal((B, C, T)) * amp * loud
    x *= ctx.loguniform(0.1, 10, (B, C, 1))
    if ctx.slot(2):
        x *= np.exp(-np.linspace(0, 4, T))
    x = torch.from_numpy(x).to(dt)
    psd = torch.from_numpy(psd).to(pdt)
    # pass band: bins [lo, hi) are kept
    lo, hi, kw = 0, F, {}
    df = sr / T
    exact = float(df).hex().endswith("p0") or np.log2(df) == int(np.log2(df))
    forms = []
    # cutoffs on a bin where that bin's frequency is exact in single
    # precision, else anywhere between two bins
    part = ctx.choice([0.02, 0.98, ctx.uniform(0.02, 0.98)])
    if ctx.rng.random() < 0.6:
        lo = ctx.randint(0, F - 2)
        form = ctx.choice(["float", "mask"])
        if form == "mask":
            kw["highpass"] = torch.arange(F) >= lo
        else:
            kw["highpass"] = float(lo * df if exact and ctx.slot(4) else
                                   max(0, (lo - part) * df))
        forms.append(form)
    else:
        forms.append(None)
    if ctx.rng.random() < 0.6:
        hi = ctx.randint(lo + 1, F)
        form = ctx.choice(["float", "mask", "floatmask"])
        if form != "float":
            kw["lowpass"] = torch.arange(F) < hi
            if form == "floatmask":
                kw["lowpass"] = kw["lowpass"].float()
        else:
            kw["lowpass"] = float(hi * df if exact and ctx.slot(4) else
                                  (hi - part) * df)
        forms.append(form)
    else:
        forms.append(None)
    if ctx.rng.random() < 0.15 and nf == F:
        # nothing outside the pass band may matter
        junk = ctx.choice([0.0, 1e30, float("inf")])
        psd[..., :lo] = junk
        psd[..., hi:] = junk
        forms.append(junk)
    ctx.params(B=B, C=C, T=T, sr=sr, rank=rank, nf=nf, amp=amp,
               dtype=str(dt), pdt=str(pdt), band=(lo, hi), forms=forms)
    return dict(B=B, C=C, T=T, sr=sr, rank=rank, nf=nf, F=F, x=x, psd=psd,
                lo=lo, hi=hi, kw=kw, forms=forms, amp=amp)


@family("P12", quick=1000, thorough=20000)
def snr(ctx):
    p = setting(ctx)
    x, kw = layout(ctx, p["x"]), p["kw"]
    keep = {k: v.clone() for k, v in kw.items() if torch.is_tensor(v)}
    want = reference(p["x"], p["psd"], p["sr"], p["lo"], p["hi"])
    ifo = ctx.call(compute_ifo_snr, x, p["psd"], p["sr"], **kw)
    # (float32 transforms leave rounding noise in faint bins)
    floor = 0.0
    if p["x"].dtype == torch.float32:
        h = np.abs(np.fft.rfft(to_np(p["x"]).astype(float))).max(-1)
        q = to_np(p["psd"]).astype(float)
        while q.ndim < 3:
            q = q[None]
        q = np.broadcast_to(resample(q, p["F"]),
                            (p["B"], p["C"], p["F"]))[..., p["lo"]:p["hi"]]
        floor = 1e-6 * h / p["sr"] * np.sqrt(
            4 * (1 / q).sum(-1) * p["sr"] / p["T"])
    # (a single precision background is resampled in single precision)
    single = p["nf"] != p["F"] and (p["psd"].dtype == torch.float32
                                    or p["nf"] * p["F"] > 2e6)
    rt = 3e-3 if single else 5e-6
    ctx.close(ifo, want, "ifo-snr", "", rtol=rt, atol=floor + 1e-12)
    net = ctx.call(compute_network_snr, x, p["psd"], p["sr"], **kw)
    nwant = np.sqrt((want**2).sum(-1))
    nfloor = np.sqrt((np.asarray(floor)**2).sum(-1)) if np.ndim(floor) else 0.0
    ctx.close(net, nwant, "network-snr", "", rtol=rt,
              atol=nfloor + 1e-12)
    ctx.event("snrs_checked", want.size)
    a = float(ctx.choice([2.0, 0.25, -3.0, ctx.uniform(0.1, 5)]))
    big = ctx.call(compute_network_snr, x * a, p["psd"], p["sr"], **kw)
    ctx.close(big, abs(a) * nwant, "amplitude", f"factor {a}", rtol=rt * 2,
              atol=2 * abs(a) * nfloor + 1e-12)
    if p["rank"] != 1 and p["C"] > 1:
        k = torch.from_numpy(ctx.rng.permutation(p["C"]))
        q = p["psd"] if p["psd"].shape[-2] == 1 else p["psd"][..., k, :]
        o = ctx.call(compute_network_snr, p["x"][:, k], q, p["sr"], **kw)
        ctx.close(o, nwant, "channel-order", "", rtol=rt * 2,
                  atol=2 * nfloor + 1e-12)
    for k, v in keep.items():
        ctx.equal(kw[k], v, "mask-changed", k)
    ctx.state("snr", p["rank"], p["T"] % 2, p["nf"] > p["F"],
              p["nf"] < p["F"], *map(str, p["forms"]), p["amp"] < 1)


def common_factor(ctx, x, y, kind):
    """y = w x per element, one positive w for all detectors"""
    x, y = to_np(x).astype(float), to_np(y).astype(float)
    w = (x * y).sum((1, 2)) / (x * x).sum((1, 2))
    ctx.check((w > 0).all(), f"{kind}-sign", f"factors {w}")
    ctx.close(y, w[:, None, None] * x, f"{kind}-factor", "", rtol=1e-5,
              atol=0)
    return w


@family("P12", quick=500, thorough=10000)
def reweight(ctx):
    p = setting(ctx)
    x, kw = layout(ctx, p["x"]), p["kw"]
    if ctx.slot(3) == 0:
        target = ctx.choice([8, float(ctx.loguniform(0.1, 1e3))])
        tn = np.full(p["B"], float(target))
    else:
        tn = ctx.loguniform(0.1, 1e3, p["B"])
        target = torch.from_numpy(tn).to(
            ctx.choice([torch.float32, torch.float64]))
    out = ctx.call(reweight_snrs, x, target, p["psd"], p["sr"], **kw)
    ctx.need(tuple(out.shape) == tuple(x.shape), "shape", str(out.shape))
    common_factor(ctx, p["x"], out, "reweight")
    got = np.sqrt((reference(out, p["psd"], p["sr"], p["lo"],
                             p["hi"])**2).sum(-1))
    ctx.close(got, tn, "target", "SNR after rescaling",
              rtol=3e-3 if p["nf"] != p["F"] and (
                  p["psd"].dtype == torch.float32
                  or p["nf"] * p["F"] > 2e6) else
              2e-4 if x.dtype == torch.float32 else 1e-5)
    ctx.event("targets_checked", p["B"])
    ctx.state("reweight", p["rank"], ctx.slot(3) == 0, *map(str, p["forms"]))


@family("P12", quick=400, thorough=8000)
def rescaler(ctx):
    B, C = ctx.choice([1, 2, ctx.randint(1, 12)]), ctx.randint(1, 4)
    sr = ctx.choice([64, 128, 256.0])
    T = ctx.choice([16, 17, 64, 128, ctx.randint(16, 300)])
    if ctx.slot(20) < 2:
        ctx.event("large")
        what = ctx.choice(["length", "channels", "batch", "batch"])
        if what == "length":
            T = ctx.choice([1024, 2048, ctx.randint(300, 4096)])
        elif what == "channels":
            C = ctx.choice([5, 6, 8, 16])
        else:
            B = ctx.choice([16, 17, 33, 64, 65, 128, 129, 257, 513])
            T = ctx.randint(16, 64)
    F, df = T // 2 + 1, sr / T
    lo, hi, kw = 0, F, {}
    part = ctx.choice([0.02, 0.98, ctx.uniform(0.02, 0.98)])
    if np.log2(df) == int(np.log2(df)) and ctx.slot(3):
        part = 0.0
    if ctx.rng.random() < 0.6:
        lo = ctx.randint(1, F // 2)
        kw["highpass"] = float((lo - part) * df)
    if ctx.rng.random() < 0.6:
        hi = ctx.randint(lo + 2, F)
        kw["lowpass"] = float((hi - part) * df)
    amp = ctx.choice([1.0, 1.0, 1e-22])
    if amp < 1 or ctx.slot(2):
        kw["dtype"] = torch.float64
    m = ctx.call(SnrRescaler, C, sr, (T + 0.25) / sr, **kw)
    if ctx.slot(3):
        nper, L = T, 8 * T
        d = ctx.rng.standard_normal((C, L)) * amp
        d = signal.lfilter([1], [1, -0.4], d) + amp * ctx.uniform(-3, 3)
        over = ctx.choice([None, 0, T // 3])
        fit = dict(fftlength=(nper + 0.25) / sr)
        nov = int((nper + 0.25) / sr / 2 * sr)
        if over is not None:
            nov = over
            fit["overlap"] = over and (over + 0.125) / sr
        win = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(nper) / nper)
        psd = signal.welch(d, fs=sr, window=win, nperseg=nper, noverlap=nov,
                           average="median", detrend="constant")[1]
    else:
        d = psd = ctx.loguniform(0.1, 10, (C, F)) * amp**2
        fit = {}
    ctx.call(m.fit, *[torch.from_numpy(r) for r in d], **fit)
    x = torch.from_numpy(ctx.rng.standard_normal((B, C, T)) * amp
                         * ctx.loguniform(0.1, 10, (B, 1, 1))
                         * ctx.choice([1.0, 1.0, 1e-9, 1e5]))
    x = x.to(ctx.choice([torch.float32, torch.float64]))
    ctx.params(B=B, C=C, T=T, sr=sr, band=(lo, hi), amp=amp, fit=fit)
    own = np.sqrt((reference(x, psd, sr, lo, hi)**2).sum(-1))

    def after(o):
        return np.sqrt((reference(o, psd, sr, lo, hi)**2).sum(-1))

    tol = dict(rtol=2e-4 if x.dtype == torch.float32 else 2e-5)
    if ctx.slot(2):
        tn = ctx.loguniform(1, 100, B)
        target = torch.from_numpy(tn).to(
            ctx.choice([torch.float32, torch.float64]))
        out, back = ctx.call(m, layout(ctx, x), target)
        ctx.equal(back, target, "targets-returned", "")
        common_factor(ctx, x, out, "rescaler")
        ctx.close(after(out), tn, "rescaler-target", "", **tol)
        ctx.event("targets_checked", B)
    else:
        orders = set()
        for _ in range(3):
            out, back = ctx.call(m, x)
            ctx.close(np.sort(to_np(back).astype(float)), np.sort(own),
                      "permutation", "returned targets", **tol)
            common_factor(ctx, x, out, "rescaler")
            ctx.close(after(out), to_np(back).astype(float),
                      "rescaler-target", "own SNRs", **tol)
            orders.add(tuple(to_np(back).tolist()))
            ctx.event("permutations_checked")
            ctx.event("targets_checked", B)
        if B >= 10:
            ctx.check(len(orders) > 1, "not-random",
                      "three identical permutations of ten or more")
    ctx.state("rescaler", B, C, T % 2, "highpass" in kw, "lowpass" in kw,
              bool(fit), ctx.slot(2))


@family("P12", quick=3, thorough=10)
def permutation(ctx):
    """every permutation of the batch's SNRs comes up"""
    B = ctx.choice([2, 3, 4])
    m = ctx.call(SnrRescaler, 1, 64, 0.5)
    ctx.call(m.fit, torch.ones(17, dtype=torch.float64))
    x = torch.randn(1, 1, 32) * torch.arange(1, B + 1).view(-1, 1, 1)
    n = 600
    seen = torch.zeros(B, B)
    for _ in range(n):
        _, back = ctx.call(m, x)
        order = back.argsort()
        seen[order, torch.arange(B)] += 1
    ctx.params(B=B, draws=n)
    p = min(binom_p(int(c), n, 1 / B) for c in seen.flatten())
    ctx.check(p > P_FALSE, "not-uniform", f"counts {seen.tolist()} p={p}")
    ctx.event("permutations_checked", n)
    ctx.state(B)


@family("P12", quick=60, thorough=600)
def refusals(ctx):
    T, C = ctx.randint(10, 60), ctx.randint(1, 3)
    F = T // 2 + 1
    x = torch.randn(2, C, T)
    psd = torch.ones(C, F)
    bad = F + ctx.choice([-1, 1, 5])
    name = ctx.cycle(["highpass", "lowpass"])
    fn = ctx.choice([compute_ifo_snr, compute_network_snr])
    ctx.params(T=T, mask=bad, which=name)
    ctx.raises(ValueError, "mask-length", fn, x, psd, 64,
               **{name: torch.ones(bad, dtype=torch.bool)})
    ctx.raises(ValueError, "mask-length", reweight_snrs, x, 3.0, psd, 64,
               **{name: torch.ones(bad, dtype=torch.bool)})
    m = ctx.call(SnrRescaler, C, 64, 1.0)
    k = ctx.choice([n for n in (C - 1, C + 1) if n])
    ctx.raises(ValueError, "count-accepted", m.fit, *[torch.ones(33)] * k)
    ctx.state(name, T % 2)
