"""P22: heterodyning multiplies by the exact leading-order phase."""

import copy

import lal
import numpy as np
import torch
from scipy.constants import pi

from ml4gw.transforms.heterodyne import Heterodyne
from vlib.core import family

TECHNIQUE = ("output monitors against a double-precision evaluation of the "
             "phase and numpy's transforms; metamorphic monitors for "
             "linearity, power and axis order")
NOTE = ("The phase factor is recomputed from the solar mass in seconds "
        "in double (and where needed extended) precision.")
RULE = ("seeded random rates, durations, mass grids and shapes; distinct by "
        "parity of the length, number of masses, shape, precision, form")
ASSUMPTIONS = [
    "GM/c^3 of the sun as documented in ml4gw.constants (MTSUN_SI)",
    "durations that are a whole number of samples",
]
REQUIRED = {"large": 40, "spectra_checked": 300, "times_checked": 300, "odd_lengths": 60,
            "forms_compared": 100, "linearity": 60, "refusals": 20}

MTSUN = float(lal.MTSUN_SI)


def factor(masses, f):
    f = np.asarray(f, dtype=np.longdouble)
    m = np.asarray(masses, dtype=np.longdouble)
    with np.errstate(divide="ignore"):
        x = np.longdouble(3) / 128 * (
            np.pi * m[:, None] * np.longdouble(MTSUN) * f[None]) ** (
                np.longdouble(-5) / 3)
    x[:, 0] = 0
    # reduce in extended precision
    return np.exp(1j * np.fmod(x, 2 * np.longdouble(pi)).astype(float)), x


def case(ctx, big=None):
    fs = ctx.choice([16, 64, 100, 128, 256, 500, 1024, 2048, 100.5, 22.75,
                     1000.2])
    n = ctx.choice([2, 3, 5, ctx.randint(2, 64), ctx.randint(2, 2000),
                    2 * ctx.randint(1, 400) + 1])
    M = ctx.choice([1, 2, 3, ctx.randint(1, 8)])
    if big == "masses":
        M, n = ctx.choice([16, 17, 33, 64, 65, 300]), ctx.randint(2, 300)
    if big == "length":
        M = ctx.randint(1, 2)
        n = ctx.choice([4096, 8193, 16384, 32769, ctx.randint(2000, 40000)])
    T = n / fs
    dtype = ctx.choice([torch.float32, torch.float32, torch.float64])
    mass = ctx.loguniform(0.5, 100, M)
    mass = torch.tensor(np.sort(mass), dtype=dtype)
    if ctx.rng.random() < 0.5:
        mass = mass.flip(0)
    lead = ctx.choice([(1, 1), (2, 3), (3, 1), (1, 2), (4, 2)])
    if big == "length":
        lead = ctx.choice([(1, 1), (1, 2)])
    if big == "batch":
        lead = ctx.choice([(33, 1), (2, 9), (65, 2), (9, 17), (1, 64)])
        M = min(M, 3)
    if big:
        ctx.event("large")
    return fs, n, float(T), mass, lead, dtype


def phase_tol(x, dtype):
    """rounding of a phase evaluated in double, kept at ``dtype``"""
    e = 6e-8 if dtype == torch.float32 else 2.2e-16
    return 6 * e + 2.2e-16 * 12 * np.asarray(np.abs(x), dtype=float)


@family("P22", quick=350, thorough=8000, priority=1)
def exact_phase(ctx):
    fs, n, T, mass, lead, dtype = case(ctx, {
        3: "masses", 9: "length", 17: "batch"}.get(ctx.slot(20)))
    xdtype = ctx.choice([dtype, dtype, torch.float32, torch.float64])
    ctx.params(fs=fs, n=n, masses=mass.tolist(), lead=lead, dtype=str(dtype),
               data=str(xdtype))
    amp = ctx.choice([1.0, 1e-21, 1e3])
    x = torch.tensor(amp * ctx.rng.standard_normal((*lead, n)), dtype=xdtype)
    xc, mc = x.clone(), mass.clone()
    both = ctx.call(Heterodyne, fs, T, mass, "both")
    t, f = ctx.call(both, x)
    ctx.check(torch.equal(x, xc) and torch.equal(mass, mc), "input_altered",
              "inputs altered")
    M = len(mass)
    ctx.need(tuple(f.shape) == (*lead, M, n // 2 + 1), "shape_freq",
             f"{tuple(f.shape)} expected {(*lead, M, n // 2 + 1)}")
    ctx.need(tuple(t.shape) == (*lead, M, n), "shape_time",
             f"{tuple(t.shape)} expected {(*lead, M, n)}")
    spec = np.fft.rfft(x.double().numpy()) / fs
    fac, ph = factor(mass.double().numpy(), np.fft.rfftfreq(n, 1 / fs))
    want = spec[..., None, :] * fac
    want[..., 0] = 0
    low = torch.float32 in (dtype, xdtype)
    e = 1.2e-7 if low else 1e-14
    rms = np.sqrt((np.abs(spec) ** 2).mean(-1, keepdims=True))[..., None, :]
    tol = (np.abs(spec)[..., None, :] * phase_tol(ph, torch.float32 if low
                                                  else torch.float64)
           + 8 * e * rms * np.log2(n + 2))
    ctx.close(f, want, "spectrum", "heterodyned spectrum", rtol=0, atol=tol)
    ctx.check(bool((f[..., 0] == 0).all()), "zero_bin",
              "the zero-frequency bin is kept")
    ctx.event("spectra_checked")
    back = np.fft.irfft(f.to(torch.complex128).numpy(), n=n) * fs
    scale = np.abs(back).max(-1, keepdims=True) + rms * fs / np.sqrt(n)
    ctx.close(t, back, "time", "time output is not the inverse transform",
              rtol=0, atol=20 * e * np.log2(n + 2) * scale)
    # power of each bin is kept
    pw = np.abs(f[..., 1:].to(torch.complex128).numpy())
    ctx.close(pw, np.broadcast_to(np.abs(spec)[..., None, 1:], pw.shape),
              "power", "per-bin power", rtol=20 * e,
              atol=16 * e * rms * np.log2(n + 2))
    ctx.event("times_checked")
    ctx.event("odd_lengths", n % 2)
    # the same in each return form
    only_t = ctx.call(ctx.call(Heterodyne, fs, T, mass, "time"), x)
    only_f = ctx.call(ctx.call(Heterodyne, fs, T, mass,
                               return_type="freq"), x)
    ctx.equal(only_t, t, "form", "time form differs from both")
    ctx.equal(only_f, f, "form", "frequency form differs from both")
    ctx.equal(ctx.call(both, x)[0], t, "repeat", "second call differs")
    ctx.event("forms_compared")
    if ctx.slot(3) == 0:
        other = Heterodyne(fs, T, torch.flip(mass, (0,)) * 1.5, "freq")
        other.load_state_dict(both.state_dict())
        ctx.equal(other(x), f, "reload", "after loading saved state")
        ctx.equal(copy.deepcopy(both)(x)[1], f, "copy", "a copy differs")
    ctx.state("exact", n % 2, min(M, 3), lead, str(dtype), str(xdtype),
              min(n // 64, 4))


@family("P22", quick=100, thorough=2000)
def metamorphic(ctx):
    fs, n, T, mass, lead, dtype = case(ctx, {
        3: "masses", 17: "batch"}.get(ctx.slot(20)))
    ctx.params(fs=fs, n=n, masses=mass.tolist(), lead=lead, dtype=str(dtype))
    form = ctx.choice(["time", "freq"])
    h = ctx.call(Heterodyne, fs, T, mass, form)
    a = torch.tensor(ctx.rng.standard_normal((*lead, n)), dtype=dtype)
    b = torch.tensor(ctx.rng.standard_normal((*lead, n)), dtype=dtype)
    p, q = ctx.uniform(-3, 3), ctx.uniform(-3, 3)
    e = 1.2e-7 if dtype == torch.float32 else 4.5e-16
    ha, hb = ctx.call(h, a), ctx.call(h, b)
    ctx.close(ctx.call(h, p * a + q * b), p * ha + q * hb, "linear",
              "not linear", rtol=0, atol=200 * e * (abs(p) + abs(q) + 1) * (
                  1 + float(ha.abs().max()) + float(hb.abs().max())))
    ctx.event("linearity")
    # vectorised powers round differently at the array's end
    f1 = fs / n
    wild = 1e-14 * (pi * float(mass.min()) * MTSUN * f1) ** (-5 / 3)
    # axes: one batch, channel and mass at a time
    for _ in range(3):
        i, j, k = (ctx.randint(0, v - 1) for v in (*lead, len(mass)))
        one = ctx.call(Heterodyne, fs, T, mass[k : k + 1], form)
        ctx.close(ctx.call(one, a[i : i + 1, j : j + 1])[0, 0, 0],
                  ha[i, j, k], "axes", f"element {(i, j, k)}", rtol=1e-5 if
                  dtype == torch.float32 else 1e-12 + wild, scale="max",
                  atol=1e-6 if dtype == torch.float32 else 1e-13)
    # undoing the phase gives the input back without its mean
    if form == "freq":
        fac, ph = factor(mass.double().numpy(), np.fft.rfftfreq(n, 1 / fs))
        y = np.fft.irfft(ha.to(torch.complex128).numpy() * fac.conj(), n) * fs
        want = (a - a.mean(-1, keepdim=True)).double().numpy()
        ctx.close(y, np.broadcast_to(want[:, :, None], y.shape), "undo",
                  "removing the phase", rtol=0,
                  atol=60 * e + 4e-15 * float(ph[:, 1:].max()))
    ctx.state("meta", n % 2, form, str(dtype))


@family("P22", quick=30, thorough=60)
def refusals(ctx):
    bad = ctx.choice(["", "Time", "frequency", "timeseries", None, "all"])
    ctx.params(bad=bad)
    ctx.raises(ValueError, "return_type", Heterodyne, 64, 1,
               torch.tensor([1.2]), bad, msg=f"return type {bad!r}")
    ctx.event("refusals")
    ctx.state("refuse", bad)
