"""P15: conditioned time-domain waveforms."""

import lal
import lalsimulation as ls
import numpy as np
import torch
from scipy import signal

from checks.p13 import MODELS, spins
from ml4gw.waveforms.cbc import utils
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator
from vlib.core import family, to_np
from vlib.lalref import MTSUN, components

TECHNIQUE = ("runtime monitor: every generated sample against an independent "
             "float64 implementation of LAL's conditioning, against gwsignal, "
             "and against placement, taper and band laws")
NOTE = ("Waveforms over random masses, spins, batches, sample rates, minimum "
        "frequencies, durations and paddings are compared sample by sample "
        "with a scipy/lal reimplementation of the conditioning of the same "
        "model, and checked for length, peak position, zero start, content "
        "below the minimum frequency, and invariance under duration, padding "
        "and batching.")
RULE = ("seeded random system/configuration; distinct by model, mass, rate, "
        "f_min, duration class")
ASSUMPTIONS = ["even sample rates", "LAL's time and frequency bounds are the "
               "reference", "samples compared relative to the peak"]
REQUIRED = {"large": 4, "td_samples_compared": 100000, "waveforms": 60,
            "peaks_checked": 20, "moved_waveforms": 20, "bounds_compared": 200,
            "gwsignal_samples":
            5000}
BUDGET_QUICK = 150


def masses(ctx, B, lo=8, hi=60):
    mc = ctx.loguniform(lo, hi, B)
    q = ctx.uniform(0.15, 1, B)
    return mc, q


def case(ctx, B=None, lo=8, hi=60, name=None):
    name = name or ctx.cycle(list(MODELS))
    B = B or ctx.choice([1, 1, 2, 3])
    mc, q = masses(ctx, B, lo, hi)
    sk, s = spins(ctx, name, B)
    s *= 0.9
    return dict(
        name=name, B=B, mc=mc, q=q, s=s, sk=sk, d=ctx.loguniform(50, 3000, B),
        inc=ctx.uniform(0, np.pi, B), phic=ctx.uniform(0, 2 * np.pi, B),
        sr=ctx.choice([1024, 2048, 2048, 4096, 4096, 2000, 8192]),
        fmin=float(ctx.choice([15, 20, 20, 25, 30, 40, ctx.uniform(12, 40)])),
        fref=float(ctx.choice([20, 40, 50, ctx.uniform(15, 60)])),
        rp=float(ctx.choice([0.25, 0.5, 0.5, 1.0, ctx.uniform(0.2, 1.0)])),
        dur=ctx.choice([8, 8, 6, 12, 16, float(ctx.uniform(5, 12))]),
    )


def tame(c):
    """TaylorF2 beyond its validity wraps around the conditioned segment"""
    if c["name"] == "TaylorF2":
        c["s"] *= 0.4
        c["mc"] = np.minimum(c["mc"], 12 + c["q"])
        c["q"] = 0.4 + 0.6 * c["q"]


def tensors(c, dtype=torch.float64, sel=slice(None)):
    t = lambda a: torch.tensor(np.asarray(a)[sel].copy(), dtype=dtype)  # noqa
    m1, m2 = components(c["mc"], c["q"])
    p = dict(mass_1=t(m1), mass_2=t(m2), chirp_mass=t(c["mc"]),
             mass_ratio=t(c["q"]), distance=t(c["d"]), phic=t(c["phic"]),
             inclination=t(c["inc"]))
    for b in (0, 1):
        for j, x in enumerate("xyz"):
            p[f"s{b + 1}{x}"] = t(c["s"][b, :, j])
        p[f"chi{b + 1}"] = t(c["s"][b, :, 2])
    return p


def generator(c, **over):
    k = {**c, **over}
    m = MODELS[k["name"]]()
    return TimeDomainCBCWaveformGenerator(
        m.double() if k.get("double", True) else m, sample_rate=k["sr"],
        duration=k["dur"], f_min=k["fmin"], f_ref=k["fref"],
        right_pad=k["rp"])


def run(ctx, c, dtype=torch.float64, sel=slice(None), **over):
    g = generator({**c, "double": dtype == torch.float64}, **over)
    hc, hp = ctx.call(g, **tensors(c, dtype, sel))
    ctx.event("waveforms", hp.shape[0])
    dur, sr = over.get("dur", c["dur"]), over.get("sr", c["sr"])
    n = int(dur * sr)
    ctx.check(abs(g.delta_t * sr - 1) + abs(g.delta_f * dur - 1) < 1e-12
              and g.size == n,
              "attributes", f"{g.delta_t}, {g.delta_f}, {g.size}")
    for h in (hc, hp):
        ctx.need(h.ndim == 2 and h.shape[-1] == n, "length",
                 f"shape {tuple(h.shape)}, requested {n} samples")
        ctx.check(torch.isfinite(h).all(), "not-finite",
                  "generated waveform is not finite")
    return to_np(hp), to_np(hc)


# ---- independent conditioning -------------------------------------------
def bounds(c):
    """per element: f_min, fstart, length (s)"""
    m1, m2 = components(c["mc"], c["q"])
    out = []
    for i in range(c["B"]):
        a, b = m1[i] * lal.MSUN_SI, m2[i] * lal.MSUN_SI
        s1, s2 = c["s"][0, i, 2], c["s"][1, i, 2]
        fisco = 1 / (9**1.5 * np.pi * (m1[i] + m2[i]) * MTSUN)
        fm = min(c["fmin"], fisco)
        tc = ls.SimInspiralChirpTimeBound(fm, a, b, s1, s2)
        sb = ls.SimInspiralFinalBlackHoleSpinBound(s1, s2)
        tm = ls.SimInspiralMergeTimeBound(a, b)
        tm += ls.SimInspiralRingdownTimeBound(a + b, sb)
        fs = ls.SimInspiralChirpStartFrequencyBound(1.1 * tc, a, b)
        tc = ls.SimInspiralChirpTimeBound(fs, a, b, s1, s2)
        pad = max(3 / fm, c["rp"])
        out.append((fm, fs, tc + tm + 3 / fm + pad, fisco))
    return np.array(out)


def reference(c):
    """(plus, cross), or None when a rounding in it is ambiguous"""
    sr = c["sr"]
    bd = bounds(c)
    fm, fs, T, fisco = bd.T
    L = np.log2(np.round(T * sr).max())
    if abs(L - round(L)) < 1e-4:
        return None
    N = int(2 ** np.ceil(L))
    df = sr / N
    for v in (fm / df, fs / df):
        if (abs(v - np.floor(v) - 0.5) < 2e-3).any():
            return None
    f = np.arange(N // 2 + 1) * df
    k = f >= fs.min()
    p = tensors(c)
    m = MODELS[c["name"]]().double()
    hc, hp = m(torch.tensor(f[k]), **p, f_ref=c["fref"])
    out = []
    for h in (hp, hc):
        H = np.zeros((c["B"], f.size), complex)
        H[:, k] = to_np(h)
        for i in range(c["B"]):
            k0, k1 = round(fs[i] / df), round(fm[i] / df)
            H[i, f < fs[i]] = 0
            w = 0.5 - 0.5 * np.cos(np.pi * (np.arange(k0, k1 + 1) - k0)
                                   / (k1 - k0))
            H[i, k0 : k1 + 1] *= w
        H[:, -1] = 0
        H = H * np.exp(2j * np.pi * f * round(c["rp"] * sr) / sr)
        x = np.fft.irfft(H, n=N) * sr
        n = max(round(sr / c["fmin"]), 4)
        x[:, :n] *= 0.5 - 0.5 * np.cos(np.pi * np.arange(n) / n)
        for i in range(c["B"]):
            n = max(round(sr / fisco[i]), 4)
            j = np.arange(1, n)
            x[i, N - n + 1 :] *= (0.5 - 0.5 * np.cos(np.pi * j / n))[::-1]
        size = int(c["dur"] * sr)
        y = np.zeros((c["B"], size))
        if size >= N:
            y[:, size - N :] = x
        else:
            y = x[:, N - size :]
        w1 = np.tan(np.pi * c["fmin"] / sr)
        wc = w1 * (1 / np.sqrt(0.99) - 1) ** (1 / 16)
        fc = sr * np.arctan(wc) / np.pi
        sos = signal.butter(8, fc, btype="highpass", output="sos", fs=sr)
        y = signal.sosfilt(sos, y)
        y = signal.sosfilt(sos, y[:, ::-1])[:, ::-1]
        out.append(y)
    return out, N


def rel(a, b):
    """max |a - b| relative to the peak of b, per element"""
    pk = np.sqrt(b[0] ** 2 + b[1] ** 2).max(-1)
    return np.maximum(abs(a[0] - b[0]).max(-1), abs(a[1] - b[1]).max(-1)) / pk


def describe(ctx, c):
    ctx.params(**{k: (v.round(5).tolist() if isinstance(v, np.ndarray) else v)
                  for k, v in c.items()})


@family("P15", quick=120, thorough=3000, priority=1)
def against_reference_conditioning(ctx):
    c = case(ctx)
    if ctx.slot(4) == 3:
        # so little room that the end taper reaches the signal
        c["rp"] = float(ctx.choice([0.004, 0.01, 0.02, 0.05]))
        if c["B"] > 1:
            c["mc"][0], c["mc"][1] = ctx.uniform(8, 12), ctx.uniform(40, 60)
    if ctx.slot(20) == 9:  # many systems of all sorts in one batch
        B = ctx.choice([8, 9, 16, 17, 32, 33])
        each = [case(ctx, B=1, lo=8, hi=ctx.choice([20, 60, 120]),
                     name=c["name"]) for _ in range(B)]
        c.update(B=B, sr=ctx.choice([1024, 2048]), sk="mixed",
                 fmin=float(ctx.choice([20, 25, 30, 40])), dur=8,
                 **{k: np.concatenate([e[k] for e in each], int(k == "s"))
                    for k in ("mc", "q", "s", "d", "inc", "phic")})
        ctx.event("large")
    dtype = ctx.choice([torch.float64, torch.float64, torch.float32])
    describe(ctx, c)
    ctx.state(c["name"], c["sr"], round(c["fmin"]), c["B"], str(dtype),
              int(np.log2(c["mc"][0])), c["sk"])
    h = run(ctx, c, dtype)
    r = reference(c)
    if r is None:
        ctx.event("ambiguous_rounding")
        return
    ref, N = r
    e = rel(h, ref)
    k = f"{c['name']}_{str(dtype)[-2:]}"
    ctx.maximum(k, e.max())
    ctx.event("td_samples_compared", 2 * h[0].size)
    tol = 5e-3 if dtype == torch.float64 else 5e-2
    ctx.check(e.max() < tol, f"conditioning:{str(dtype)[6:]}",
              f"differs from the reference by {e.max():.3e} of the peak "
              f"(elements {e.round(6).tolist()})")


@family("P15", quick=60, thorough=1500)
def placement_and_band(ctx):
    name = ctx.cycle(["IMRPhenomD", "IMRPhenomPv2"])
    c = case(ctx, name=name)
    if name == "IMRPhenomPv2":  # precession modulates the amplitude
        c["s"][..., :2] = 0
    bd = bounds(c)
    describe(ctx, c)
    c["dur"] = float(np.ceil(2 * bd[:, 2].max()) + 2 + c["rp"])
    hp, hc = run(ctx, c)
    sr = c["sr"]
    n = hp.shape[-1]
    m1, m2 = components(c["mc"], c["q"])
    M = (m1 + m2) * MTSUN
    ctx.state(name, sr, c["sk"], round(c["rp"], 2))
    for i in range(c["B"]):
        tot = np.sqrt(hp[i] ** 2 + hc[i] ** 2)
        pk = tot.max()
        a = np.sqrt(np.abs(signal.hilbert(hp[i])) ** 2
                    + np.abs(signal.hilbert(hc[i])) ** 2)
        # where the merger is in band, the peak is at the coalescence
        fm = c["fmin"]
        if 0.04 / M[i] > 2 * fm:
            t = (a.argmax() - (n - round(c["rp"] * sr))) / sr
            ctx.event("peaks_checked")
            ctx.maximum(f"peak_offset_M_{name}", abs(t) / M[i])
            ctx.check(abs(t) < 200 * M[i] + 4 / sr, "peak",
                      f"peak {t:.5f} s from the requested time "
                      f"({t / M[i]:.1f} M)")
            X = np.abs(np.fft.rfft(np.stack([hp[i], hc[i]]))) ** 2
            f = np.fft.rfftfreq(n, 1 / sr)
            frac = X[:, f < 0.5 * fm].sum() / X.sum()
            ctx.maximum("power_below_half_fmin", frac)
            ctx.check(frac < 1e-6, "low-frequency",
                      f"{frac:.2e} of the power lies below f_min/2")
        head = tot[: max(8, int(0.5 * sr))].max() / pk
        ctx.maximum("head", head)
        ctx.event("heads_checked")
        ctx.check(head < 1e-6, "zero-start",
                  f"starts at {head:.2e} of the peak")


@family("P15", quick=60, thorough=1500)
def moves_without_changing_shape(ctx):
    """a longer window only adds zeros on the left; more right padding only
    shifts the signal to the left"""
    c = case(ctx)
    tame(c)
    bd = bounds(c)
    base = float(np.ceil(2 * bd[:, 2].max()) + 1)
    c["dur"] = base + ctx.choice([0, 1, 0.5])
    describe(ctx, c)
    k = ctx.cycle(["duration", "padding"])
    ctx.state(c["name"], k, c["sr"], c["B"])
    a = run(ctx, c)
    pk = np.sqrt(a[0] ** 2 + a[1] ** 2).max(-1, keepdims=True)
    n = a[0].shape[-1]
    if k == "duration":
        b = run(ctx, c, dur=c["dur"] + ctx.choice([1, 2, 3.25]))
        tol = 1e-5
        pairs = [(y[:, -n:], x) for x, y in zip(a, b, strict=True)]
        rest = max(abs(y[:, :-n] / pk).max() for y in b)
        ctx.check(rest < 1e-6, "duration:added", f"added samples {rest:.1e}")
    else:
        sr = c["sr"]
        extra = ctx.choice([0.1, 0.25, 0.125, 0.5])
        # keep the pad at which the signal wraps far away
        b = run(ctx, c, rp=c["rp"] + extra)
        s = round((c["rp"] + extra) * sr) - round(c["rp"] * sr)
        skip = int(0.25 * n)
        tail = int((c["rp"] - 0.12) * sr)
        pairs = [(y[:, skip - s : n - tail - s], x[:, skip : n - tail])
                 for x, y in zip(a, b, strict=True)]
        tol = 0.1
    ctx.event("moved_waveforms", c["B"])
    e = max((abs(y - x) / pk).max() for y, x in pairs)
    ctx.maximum(f"{k}_{c['name']}", e)
    ctx.check(e < tol, f"{k}:shape",
              f"shape changes by {e:.3e} of the peak")


@family("P15", quick=40, thorough=1000)
def alone_or_together(ctx):
    c = case(ctx, B=ctx.choice([2, 3, 4, 4, 9]))
    tame(c)
    c["dur"] = float(np.ceil(2.1 * bounds(c)[:, 2].max()) + 1)
    describe(ctx, c)
    ctx.state(c["name"], c["B"], c["sr"])
    a = run(ctx, c)
    i = ctx.randint(0, c["B"] - 1)
    b = run(ctx, c, sel=slice(i, i + 1))
    pk = np.sqrt(b[0] ** 2 + b[1] ** 2).max()
    e = max(abs(x[i] - y[0]).max() / pk for x, y in zip(a, b, strict=True))
    ctx.event("moved_waveforms")
    ctx.maximum(f"batch_{c['name']}", e)
    ctx.check(e < 0.1, "batching",
              f"element {i} differs by {e:.3e} of the peak from itself alone")
    # the same batch in another order: exactly the same
    perm = ctx.rng.permutation(c["B"])
    d = run(ctx, c, sel=perm)
    e = max(abs(x[perm] - y).max() / pk for x, y in zip(a, d, strict=True))
    ctx.check(e < 1e-6, "order", f"reordering changes values by {e:.2e}")


@family("P15", quick=16, thorough=400)
def long_signals(ctx):
    """neutron-star binaries: long signals, also cropped"""
    c = case(ctx, B=ctx.choice([1, 2]), lo=1.1, hi=4,
             name=ctx.choice(["IMRPhenomD", "TaylorF2"]))
    c["s"] *= 0.3
    c["sr"] = ctx.choice([1024, 2048])
    c["fmin"] = float(ctx.choice([25, 30, 40]))
    c["dur"] = ctx.choice([4, 8, 32, 64, 7.3, 128])
    describe(ctx, c)
    ctx.state(c["name"], c["dur"], c["sr"])
    h = run(ctx, c)
    r = reference(c)
    if r is None:
        return
    ref, N = r
    ctx.state("cropped" if N > c["dur"] * c["sr"] else "padded")
    e = rel(h, ref)
    ctx.maximum("long", e.max())
    ctx.event("td_samples_compared", 2 * h[0].size)
    ctx.check(e.max() < 2e-2, "conditioning:long",
              f"differs from the reference by {e.max():.3e} of the peak")


@family("P15", quick=24, thorough=400)
def against_gwsignal(ctx):
    """the whole chain against gwsignal's own conditioning"""
    import warnings

    import astropy.units as u
    from lalsimulation.gwsignal.core.waveform import (
        GenerateTDWaveform,
        LALCompactBinaryCoalescenceGenerator,
    )

    class Gen(LALCompactBinaryCoalescenceGenerator):
        @property
        def metadata(self):
            return {"type": "cbc_lalsimulation", "f_ref_spin": True,
                    "modes": True, "polarizations": True,
                    "implemented_domain": self._implemented_domain,
                    "generation_domain": self._generation_domain,
                    "approximant": self._approx_name,
                    "implementation": "LALSimulation",
                    "conditioning_routines": "gwsignal"}

        def _update_domains(self):
            self._implemented_domain = "freq"

    c = case(ctx, B=1, lo=6, hi=40, name="IMRPhenomD")
    c["sr"] = ctx.choice([2048, 4096])
    c["fmin"] = float(ctx.choice([15, 20, 25]))
    c["rp"] = 0.5
    c["dur"] = float(np.ceil(2.1 * bounds(c)[:, 2].max()) + 1)
    describe(ctx, c)
    ctx.state(c["sr"], c["fmin"], int(np.log2(c["mc"][0])))
    hp, _ = run(ctx, c)
    m1, m2 = components(c["mc"][0], c["q"][0])
    dl = u.dimensionless_unscaled
    par = {"mass1": m1 * u.solMass, "mass2": m2 * u.solMass,
           "deltaT": 1 / c["sr"] * u.s, "f22_start": c["fmin"] * u.Hz,
           "f22_ref": c["fref"] * u.Hz, "phi_ref": c["phic"][0] * u.rad,
           "distance": c["d"][0] * u.Mpc, "inclination": c["inc"][0] * u.rad,
           "eccentricity": 0 * dl, "longAscNodes": 0 * u.rad,
           "meanPerAno": 0 * u.rad, "condition": 1}
    for b in (0, 1):
        for j, x in enumerate("xyz"):
            par[f"spin{b + 1}{x}"] = c["s"][b, 0, j] * dl
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gp, _ = GenerateTDWaveform(par, Gen("IMRPhenomD"))
    n = hp.shape[-1]
    # sample j of gwsignal lies at j + o (gwsignal measures its epoch from
    # the peak: find the whole number of samples between the two)
    g = gp.value
    w = int(0.3 * c["sr"])
    if len(g) < 3 * w:
        ctx.event("gwsignal_too_short")
        return
    g = g[w : len(g) - int(0.04 * c["sr"])]
    o = round(n - c["rp"] * c["sr"] + gp.times.value[0] * c["sr"]) + w
    M = (m1 + m2) * MTSUN
    span = int(200 * M * c["sr"]) + 4
    pk = np.abs(g).max()
    e = {d: np.abs(hp[0][o + d : o + d + len(g)] - g).max() / pk
         for d in range(-span, span + 1)}
    d = min(e, key=e.get)
    e = e[d]
    k = g != 0
    ctx.maximum("gwsignal_shift_M", abs(d) / c["sr"] / M)
    ctx.event("gwsignal_samples", k.sum())
    ctx.maximum("gwsignal", e)
    ctx.check(e < 0.06, "gwsignal",
              f"differs from gwsignal by {e:.3e} of the peak")


@family("P15", quick=24, thorough=400)
def extreme_systems(ctx):
    """heavy systems whose merger lies below f_min, high rates, low f_min"""
    c = case(ctx, lo=60, hi=250)
    c["sr"] = ctx.choice([2048, 4096, 8192, 16384])
    c["fmin"] = float(ctx.choice([10, 20, 30, 50]))
    c["dur"] = ctx.choice([4, 8])
    describe(ctx, c)
    ctx.state(c["name"], c["sr"], c["fmin"], int(c["mc"][0] / 40))
    h = run(ctx, c)
    ctx.check(max(abs(x).max() for x in h) < 1e-15, "unbounded",
              f"largest sample {max(abs(x).max() for x in h):.2e}")


@family("P15", quick=60, thorough=2000)
def bounds_against_lal(ctx):
    """each time, frequency and spin bound the conditioning rests on"""
    B = ctx.choice([1, 3, 7])
    m1, m2 = ctx.loguniform(0.5, 500, B), ctx.loguniform(0.5, 500, B)
    kind = ctx.cycle(["uniform", "edge", "negative", "high"])
    s1, s2 = {
        "uniform": lambda: (ctx.uniform(-1, 1, B), ctx.uniform(-1, 1, B)),
        "edge": lambda: tuple(ctx.rng.choice(
            [-1.0, -0.998, 0.0, 0.95, 0.998, 1.0], B) for _ in "12"),
        "negative": lambda: (-ctx.uniform(0.7, 1, B), ctx.uniform(-1, 0, B)),
        "high": lambda: (ctx.uniform(0.9, 1, B), ctx.uniform(-1, 1, B)),
    }[kind]()
    if ctx.slot(2):
        s1, s2 = s2, s1
    f, t = ctx.loguniform(1, 300, B), ctx.loguniform(0.1, 3000, B)
    ctx.params(m1=m1, m2=m2, s1=s1, s2=s2, f=f, t=t)
    ctx.state("bounds", kind, B)
    T = torch.tensor
    k1, k2 = m1 * lal.MSUN_SI, m2 * lal.MSUN_SI
    sp = np.array([ls.SimInspiralFinalBlackHoleSpinBound(a, b)
                   for a, b in zip(s1, s2)])
    got = {
        "chirp_time": ctx.call(utils.chirp_time_bound, T(f), T(k1), T(k2),
                               T(s1), T(s2)),
        "start_frequency": ctx.call(utils.chirp_start_frequency_bound, T(t),
                                    T(k1), T(k2)),
        "final_spin": ctx.call(utils.final_black_hole_spin_bound, T(s1),
                               T(s2)),
        "merge_time": ctx.call(utils.merge_time_bound, T(k1), T(k2)),
        "ringdown_time": ctx.call(utils.ringdown_time_bound, T(k1 + k2),
                                  T(sp)),
        "isco": ctx.call(utils.frequency_isco, T(k1), T(k2)),
    }
    want = {
        "chirp_time": [ls.SimInspiralChirpTimeBound(*a)
                       for a in zip(f, k1, k2, s1, s2)],
        "start_frequency": [ls.SimInspiralChirpStartFrequencyBound(*a)
                            for a in zip(t, k1, k2)],
        "final_spin": sp,
        "merge_time": [ls.SimInspiralMergeTimeBound(*a)
                       for a in zip(k1, k2)],
        "ringdown_time": [ls.SimInspiralRingdownTimeBound(*a)
                          for a in zip(k1 + k2, sp)],
        "isco": 1 / (9 ** 1.5 * np.pi * (m1 + m2) * lal.MTSUN_SI),
    }
    for k, v in got.items():
        w = np.asarray(want[k])
        e = np.abs(to_np(v) / w - 1).max()
        ctx.maximum(f"bound_{k}", e)
        ctx.event("bounds_compared", B)
        ctx.check(e < 3e-6, f"bound:{k}", f"{k} {to_np(v)} for LAL's {w}")
