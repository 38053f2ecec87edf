"""P17: sine-Gaussian and ringdown bursts."""

import lal
import numpy as np
import torch
from lalinference import BurstSineGaussian

from ml4gw.waveforms import Ringdown, SineGaussian
from vlib.core import family, to_np

TECHNIQUE = ("runtime monitor: every burst against its closed form in float64 "
             "and LALInference's burst, with energy, centring, linearity and "
             "inclination laws read off the samples")
NOTE = ("Bursts of random quality, frequency, phase, eccentricity, "
        "inclination, rate, duration and precision are compared sample by "
        "sample with independent closed forms (the ringdown's through the "
        "spin-weighted harmonics of LAL), and with each other under scaling.")
RULE = ("seeded random burst; distinct by class, precision, rate, duration, "
        "quality decade")
ASSUMPTIONS = ["quality at least 1.1", "phases may be off by single-precision "
               "rounding of pi, which the code keeps in single precision"]
REQUIRED = {"large": 6, "sg_samples": 100000, "rd_samples": 100000, "energies": 40,
            "reference_bursts": 20}


def sg_params(ctx, sr, B, dtype):
    q = ctx.loguniform(2, 200, B)
    f = ctx.loguniform(10, 0.45 * sr, B)
    h = ctx.loguniform(1e-24, 1e-19, B)
    ph = ctx.uniform(-2 * np.pi, 2 * np.pi, B)
    e = ctx.uniform(0, 1, B)
    k = ctx.choice(["any", "any", "linear", "circular", "special", "mixed"])
    if k == "mixed":
        some = ctx.rng.random(B)
        e = np.where(some < 0.25, 1.0, np.where(some < 0.5, 0.0, e))
        q = np.where(ctx.rng.random(B) < 0.3, ctx.uniform(2, 3, B), q)
    elif k == "linear":
        e[:] = 1
    elif k == "circular":
        e[:] = 0
    elif k == "special":
        ph = ctx.rng.choice(np.arange(-4, 5) * np.pi / 2, B)
    t = [torch.tensor(x).to(dtype) for x in (q, f, h, ph, e)]
    return t, k


def sg_closed(t, q, f, h, ph, e):
    """float64 closed form from the definition of hrss"""
    q, f, h, ph, e = (to_np(x).astype(float)[:, None]
                      for x in (q, f, h, ph, e))
    a = 1 / np.sqrt(2 - e * e)
    b = np.sqrt(np.maximum(1 - a * a, 0))  # a^2 + b^2 = 1
    b = np.where(e == 1, 0, b)
    phi = 2 * np.pi * f * t
    env = np.exp(-0.5 * (phi / q) ** 2)
    # int env^2 cos^2(phi - p) dt, int env^2 sin^2(phi - p) dt
    c = q / (4 * f * np.sqrt(np.pi))
    ec = c * (1 + np.exp(-q * q) * np.cos(2 * ph))
    es = c * (1 - np.exp(-q * q) * np.cos(2 * ph))
    plus = h * a / np.sqrt(ec) * env * np.cos(phi - ph)
    cross = h * b / np.sqrt(es) * env * np.sin(phi - ph)
    amp = h / np.sqrt(c * 0.9) * env
    return plus, cross, amp, phi


@family("P17", quick=240, thorough=12000, priority=1)
def sine_gaussian_closed_form(ctx):
    dtype = ctx.choice([torch.float64, torch.float64, torch.float32])
    sr = ctx.choice([256, 512, 2048, 4096, 16384, 1000, 2048.0])
    dur = ctx.choice([1, 2.0, 4.0, 0.5, 1.25, 3])
    B = ctx.choice([1, 3, 16])
    if ctx.slot(20) == 9:
        B = ctx.choice([32, 33, 64, 65, 129, 257])
        dur = ctx.choice([0.25, 0.5])
        ctx.event("large")
    elif ctx.slot(20) == 4:
        dur, B = ctx.choice([8, 16.0, 10.5]), ctx.randint(1, 3)
        ctx.event("large")
    p, k = sg_params(ctx, sr, B, dtype)
    ctx.params(dtype=dtype, sr=sr, dur=dur, B=B, k=k, q=p[0], f=p[1], h=p[2],
               phase=p[3], ecc=p[4])
    ctx.state(str(dtype), sr, dur, k)
    m = ctx.call(SineGaussian, sr, dur)
    hc, hp = ctx.call(m, *p)
    n = int(dur * sr)
    for h in (hc, hp):
        ctx.need(tuple(h.shape) == (B, n), "shape", str(h.shape))
        ctx.check(h.dtype == dtype, "dtype", str(h.dtype))
    t = np.arange(n) / sr - dur / 2
    plus, cross, amp, phi = sg_closed(t, *p)
    eps = torch.finfo(dtype).eps
    tol = amp * (2e-7 * (1 + np.abs(phi)) + 2e-7
                 + 20 * eps * (1 + (phi / to_np(p[0])[:, None]) ** 2))
    tol = tol + 1e-6 * np.abs(amp).max(-1, keepdims=True) * (
        dtype == torch.float32)
    # b is sqrt(1 - e^2): rounding at e near one
    ctx.event("sg_samples", 2 * hp.numel())
    ctx.close(hp, plus, "plus", rtol=1.0, scale=tol, atol=1e-42)
    ctx.close(hc, cross, "cross", rtol=1.0, scale=tol * (
        1 + 1e3 * (dtype == torch.float32)
        * (np.abs(1 - to_np(p[4])[:, None]) < 1e-4)), atol=1e-42)
    # reversed about the centre: the plus polarization of an even burst
    q, f, h, ph, e = p
    hc2, hp2 = ctx.call(m, q, f, h, -ph, e)
    if n % 2 == 0 and dur * sr == n:
        s = np.abs(amp).max()
        ctx.close(hp2[:, 1:].flip(-1), hp[:, 1:], "mirror", rtol=1e-5,
                  scale=s)
        ctx.close(hc2[:, 1:].flip(-1), -to_np(hc[:, 1:]), "mirror", rtol=1e-5,
                  scale=s)


@family("P17", quick=160, thorough=8000, priority=1)
def sine_gaussian_energy(ctx):
    """root-sum-square amplitude, its sharing and centring, off the samples"""
    sr = ctx.choice([1024, 2048, 4096, 8192])
    dur = ctx.choice([2, 4, 4.5])
    B = ctx.choice([1, 5])
    p, k = sg_params(ctx, sr, B, torch.float64)
    q, f = to_np(p[0]), to_np(p[1])
    # inside the window and inside the band
    f = np.clip(f, 8 * q / (2 * np.pi * dur) * 2, None)
    f = np.minimum(f, sr / 2 / (1 + 7 / q))
    ok = f * dur * np.pi / q > 6
    p[1] = torch.tensor(f)
    ctx.params(sr=sr, dur=dur, q=q, f=f, h=p[2], phase=p[3], ecc=p[4])
    ctx.state(sr, dur, k)
    hc, hp = map(to_np, ctx.call(SineGaussian(sr, dur), *p))
    h, e = to_np(p[2]), to_np(p[4])
    ep, ec = (hp**2).sum(-1) / sr, (hc**2).sum(-1) / sr
    ctx.event("energies", ok.sum())
    ctx.close(np.sqrt(ep + ec)[ok], h[ok], "hrss", rtol=1e-5)
    ctx.close((ep / (ep + ec))[ok], (1 / (2 - e * e))[ok], "sharing",
              rtol=1e-5)
    t = np.arange(hp.shape[-1]) / sr
    mid = ((hp**2 + hc**2) * t).sum(-1) / (ep + ec) / sr
    sig = q / (2 * np.pi * f)
    ctx.check((np.abs(mid - dur / 2) < 0.2 * sig + 1e-9)[ok].all(), "centre",
              f"centred at {mid}, window is {dur} s")
    pk = np.fft.rfft(hp, axis=-1)
    fr = np.fft.rfftfreq(hp.shape[-1], 1 / sr)
    w = np.abs(pk) ** 2
    mean = (w * fr).sum(-1) / w.sum(-1)
    ctx.check((np.abs(mean - f) < f / q)[ok].all(), "frequency",
              f"mean frequency {mean}, requested {f}")


@family("P17", quick=100, thorough=800)
def sine_gaussian_reference(ctx):
    sr = ctx.choice([1024, 2048, 4096, 8192])
    p, k = sg_params(ctx, sr, 1, torch.float64)
    q, f, h, ph, e = (float(x) for x in p)
    dur = 4.0
    ctx.params(sr=sr, q=q, f=f, h=h, phase=ph, ecc=e)
    ctx.state(sr, k, int(np.log2(q)), int(np.log2(f)))
    hc, hp = map(to_np, ctx.call(SineGaussian(sr, dur), *p))
    rp, rc = BurstSineGaussian(Q=q, centre_frequency=f, hrss=h,
                               eccentricity=e, phase=ph, delta_t=1 / sr)
    rp, rc = rp.data.data, rc.data.data
    n = len(rp)
    N = hp.shape[-1]
    k = min(n // 2, N // 2 - 1)
    c, r = N // 2, n // 2
    s = np.abs(rp).max() + np.abs(rc).max()
    ctx.event("reference_bursts")
    ctx.close(hp[0, c - k : c + k + 1], rp[r - k : r + k + 1], "lal-plus",
              rtol=4e-5, scale=s)
    ctx.close(hc[0, c - k : c + k + 1], rc[r - k : r + k + 1], "lal-cross",
              rtol=4e-5, scale=s)


def rd_params(ctx, sr, B, dtype):
    f = ctx.loguniform(20, 0.48 * sr, B)
    q = ctx.loguniform(2, 100, B)
    eps = ctx.loguniform(1e-4, 0.1, B)
    ph = ctx.uniform(-2 * np.pi, 2 * np.pi, B)
    inc = ctx.uniform(0, np.pi, B)
    d = ctx.loguniform(1, 3000, B)
    k = ctx.choice(["any", "any", "face", "edge", "barely", "low",
                    "mixed"])
    if k == "face":
        inc = ctx.rng.choice([0, np.pi], B)
    elif k == "edge":
        inc[:] = np.pi / 2
    elif k == "barely":
        q[:] = ctx.uniform(2, 2.2)
    elif k == "mixed":
        some = ctx.rng.random(B)
        inc = np.where(some < 0.25, 0.0, np.where(
            some < 0.5, np.pi, np.where(some < 0.6, np.pi / 2, inc)))
        q = np.where(ctx.rng.random(B) < 0.4, ctx.uniform(1.1, 2.2, B), q)
    elif k == "low":
        # (the fit has no real answer at one and below)
        q = ctx.uniform(1.1, 2, B)
    return [torch.tensor(x).to(dtype) for x in (f, q, eps, ph, inc, d)], k


def rd_closed(t, f, q, eps, ph, inc, d):
    f, q, eps, ph, inc, d = (to_np(x).astype(float)[:, None]
                             for x in (f, q, eps, ph, inc, d))
    # Echeverria's fits, inverted for mass and spin
    a = 1 - (2 / q) ** (20 / 9)
    M = lal.C_SI**3 / (2 * np.pi * lal.G_SI * f) \
        * (1 - 0.63 * (1 - a) ** 0.3)
    A = np.sqrt(2.5) * eps * lal.G_SI * M / lal.C_SI**2 / np.sqrt(
        q * (1 + 7 / (24 * q * q)) * (1 - 0.63 * (1 - a) ** 0.3))
    A = A / (d * 1e6 * lal.PC_SI)
    env = A * np.exp(-np.pi * f * t / q)
    phi = 2 * np.pi * f * t + ph
    y = [[lal.SpinWeightedSphericalHarmonic(float(i), 0.0, -2, 2, m).real
          for i in inc[:, 0]] for m in (2, -2)]
    up, dn = np.array(y)[:, :, None] * np.sqrt(64 * np.pi / 5)
    return (env * (up + dn) / 2 * np.cos(phi),
            env * (up - dn) / 2 * np.sin(phi), env, phi)


@family("P17", quick=240, thorough=12000, priority=1)
def ringdown_closed_form(ctx):
    dtype = ctx.choice([torch.float64, torch.float64, torch.float32])
    sr = ctx.choice([512, 2048, 4096, 16384, 1000])
    dur = ctx.choice([0.25, 1, 0.5, 2.0, 1.1])
    B = ctx.choice([1, 3, 16])
    if ctx.slot(20) == 9:
        B = ctx.choice([32, 33, 64, 65, 129, 257])
        dur = ctx.choice([0.25, 0.5])
        ctx.event("large")
    elif ctx.slot(20) == 4:
        dur, B = ctx.choice([8, 16.0, 10.5]), ctx.randint(1, 3)
        ctx.event("large")
    p, k = rd_params(ctx, sr, B, dtype)
    ctx.params(dtype=dtype, sr=sr, dur=dur, B=B, k=k, f=p[0], q=p[1],
               epsilon=p[2], phase=p[3], inc=p[4], d=p[5])
    ctx.state(str(dtype), sr, dur, k)
    m = ctx.call(Ringdown, sr, dur)
    hc, hp = ctx.call(m, *p)
    n = int(dur * sr)
    for h in (hc, hp):
        ctx.need(tuple(h.shape) == (B, n), "shape", str(h.shape))
        ctx.check(torch.isfinite(h).all(), "not-finite")
    t = np.arange(n) / sr
    plus, cross, env, phi = rd_closed(t, *p)
    single = dtype == torch.float32
    tol = 2 * env * (4e-7 * (1 + np.abs(phi)) + (2e-4 if single else 2e-6))
    ctx.event("rd_samples", 2 * hp.numel())
    ctx.close(hp, plus, "rd-plus", rtol=1.0, scale=tol, atol=1e-44)
    ctx.close(hc, cross, "rd-cross", rtol=1.0, scale=tol, atol=1e-44)
    # the first sample is the undecayed one
    f, q, eps, ph, inc, d = p
    s = float(ctx.uniform(0.2, 5))
    hc2, hp2 = ctx.call(m, f, q, eps * s, ph, inc, d)
    e = 1e-4 if single else 1e-12
    sc = np.abs(env).max(-1, keepdims=True)
    ctx.close(hp2, s * to_np(hp), "epsilon-linear", rtol=e, scale=s * sc)
    ctx.close(hc2, s * to_np(hc), "epsilon-linear", rtol=e, scale=s * sc)
    hc2, hp2 = ctx.call(m, f, q, eps, ph, inc, d * s)
    ctx.close(hp2, to_np(hp) / s, "distance", rtol=e, scale=sc / s)
    ctx.close(hc2, to_np(hc) / s, "distance", rtol=e, scale=sc / s)


@family("P17", quick=100, thorough=400)
def alone_and_moved(ctx):
    """each burst alone; the same module again; other precision of buffers"""
    sr, dur, B = ctx.choice([1024, 4096]), 1.0, ctx.choice([4, 4, 9, 33])
    k = ctx.cycle(["sg", "rd"])
    if k == "sg":
        m, (p, _) = SineGaussian(sr, dur), sg_params(ctx, sr, B,
                                                      torch.float64)
    else:
        m, (p, _) = Ringdown(sr, dur), rd_params(ctx, sr, B, torch.float64)
    ctx.params(k=k, sr=sr)
    ctx.state(k, sr)
    out = ctx.call(m, *p)
    keep = [x.clone() for x in p]
    i = ctx.randint(0, B - 1)
    one = ctx.call(m, *(x[i : i + 1] for x in p))
    scalar = ctx.call(m, *(x[i] for x in p))
    ctx.event("solo_bursts")
    for a, b, c in zip(out, one, scalar, strict=True):
        s = np.abs(to_np(a[i])).max()
        ctx.close(b[0], a[i], "alone", rtol=1e-12, scale=s)
        ctx.close(c[0], a[i], "scalar", rtol=1e-12, scale=s)
    for x, y in zip(p, keep, strict=True):
        ctx.equal(x, y, "inputs-changed")
    # a longer window: the same burst about the new centre, from the start
    longer = type(m)(sr, 2 * dur)
    out2 = ctx.call(longer, *p)
    n = out[0].shape[-1]
    for a, b in zip(out, out2, strict=True):
        s = np.abs(to_np(a)).max()
        b = b[:, n // 2 : n // 2 + n] if k == "sg" else b[:, :n]
        ctx.close(b, a, "longer-window", rtol=1e-10, scale=s)
