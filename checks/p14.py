"""P14: scaling and symmetry laws of the frequency-domain waveforms."""

import numpy as np
import torch

from checks.p13 import MODELS, draw, evaluate, systems
from vlib.core import family
from vlib.lalref import MTSUN, components

TECHNIQUE = ("runtime monitor: metamorphic laws (distance, total mass, "
             "phase, inclination, rotation, aligned limit) and finiteness "
             "asserted on every returned polarization sample")
NOTE = ("The real models are run on related parameter sets and every sample "
        "must obey the law relating them; finiteness is asserted over the "
        "whole parameter range in both precisions.")
RULE = "seeded random parameters; distinct by law, model and spin class"
ASSUMPTIONS = ["|spin| <= 0.99, 1/18 <= q <= 1, frequencies up to Mf = 0.6"]
REQUIRED = {"finite_samples": 100000, "law_samples": 20000,
            "aligned_limits": 10, "rotations": 20}

AL = ["TaylorF2", "IMRPhenomD"]
F = [torch.float32, torch.float64]
ROWS = ("mc", "q", "s", "d", "inc", "phic")


def cplx(ctx, name, p, **over):
    return evaluate(ctx, name, {**p, **over})


def law(ctx, kind, got, want, tol, msg=""):
    """got = want for (plus, cross) relative to their common amplitude"""
    tot = np.sqrt(abs(want[0]) ** 2 + abs(want[1]) ** 2)
    e = np.sqrt(abs(got[0] - want[0]) ** 2 + abs(got[1] - want[1]) ** 2)
    # far beyond the ringdown the amplitude vanishes altogether
    e = np.where((tot == 0) & (e == 0), 0, e / np.where(tot == 0, 1, tot))
    ctx.event("law_samples", e.size)
    ctx.maximum(kind, e.max())
    ctx.check(e.max() < tol, kind,
              f"{msg} relative error {e.max():.3e} > {tol:g}")


def start(ctx, name):
    p = draw(ctx, name)
    if ctx.slot(2):
        ctx.models = {}  # one model for all the calls of the case
    ctx.params(model=name, **{k: v for k, v in p.items() if k != "f"})
    return p


def along(p):
    """Spins for which J points along L at the reference frequency: beyond,
    the reference model itself breaks down (transitional precession)."""
    m1, m2 = components(p["mc"], p["q"])
    M = m1 + m2
    v = (np.pi * M * MTSUN * p["fref"]) ** (1 / 3)
    L = m1 * m2 / v
    S = m1**2 * p["s"][0, :, 2] + m2**2 * p["s"][1, :, 2]
    p["s"][..., 2] *= np.where(L + S > 0.2 * L, 1, -1)


def phase_unit(p):
    """rounding of the largest phase in the case (float64)"""
    m1, m2 = components(p["mc"], p["q"])
    M = (m1 + m2) * MTSUN
    eta = m1 * m2 / (m1 + m2) ** 2
    ph = 3 / 128 / eta * (np.pi * M * min(p["f"].min(), p["fref"])) ** (-5 / 3)
    return 1.1e-16 * (ph + 1000 / eta).max()


@family("P14", quick=200, thorough=8000, priority=1)
def finite(ctx):
    name = ctx.cycle(list(MODELS))
    p = start(ctx, name)
    m1, m2 = components(p["mc"], p["q"])
    lo = ctx.choice([1.0, 5.0, 20.0])
    hi = 0.6 / ((m1 + m2).min() * MTSUN)
    p["f"] = np.sort(np.concatenate([
        np.geomspace(lo, hi, 500), ctx.uniform(lo, 2048, 300)]))
    if ctx.slot(4) == 0:
        p["q"] = ctx.choice([np.ones(p["B"]), ctx.uniform(0.056, 1, p["B"])])
    if ctx.slot(5) == 0:
        p["s"] = np.round(p["s"], 1)
    dtype = ctx.choice(F)
    if dtype == torch.float32:
        p["d"] = np.minimum(p["d"], 1000)
    ctx.state(name, str(dtype), p["sk"], p["qk"], p["ik"])
    hp, hc = evaluate(ctx, name, p, dtype)
    ctx.event("finite_samples", 2 * hp.size)
    for n, h in (("plus", hp), ("cross", hc)):
        bad = ~np.isfinite(h)
        ctx.check(not bad.any(), f"{name}:not-finite",
                  f"{bad.sum()} {n} samples, first at f="
                  f"{p['f'][bad.any(0)][:1]}", dtype=dtype,
                  s=p["s"].round(6).tolist())
    m = np.abs(hp) + np.abs(hc)
    ctx.check((m[:, : 100].max(1) > 0).all(), f"{name}:vanishes",
              "waveform vanishes identically")


@family("P14", quick=80, thorough=3000)
def distance(ctx):
    name = ctx.cycle(list(MODELS))
    p = start(ctx, name)
    lam = ctx.loguniform(1e-2, 1e2, p["B"])
    a = cplx(ctx, name, p)
    b = cplx(ctx, name, p, d=p["d"] * lam)
    ctx.state(name, p["sk"])
    law(ctx, f"{name}:distance", [x * lam[:, None] for x in b], a, 1e-12)


@family("P14", quick=80, thorough=3000)
def total_mass(ctx):
    name = ctx.cycle(list(MODELS))
    p = start(ctx, name)
    lam = float(ctx.loguniform(0.2, 5))
    a = cplx(ctx, name, p)
    b = cplx(ctx, name, p, mc=p["mc"] * lam, f=p["f"] / lam,
             fref=p["fref"] / lam)
    ctx.state(name, p["sk"], lam > 1)
    tol = 1e4 * phase_unit(p) + 1e-9
    if name != "TaylorF2":  # a sample may round across a joining frequency
        tol = tol * 1e3 + 2e-5
    law(ctx, f"{name}:total-mass", [x / lam**2 for x in b], a, tol,
        f"lambda={lam}")


@family("P14", quick=80, thorough=3000)
def coalescence_phase(ctx):
    """aligned: h(phic) = h(0) exp(2i phic), same modulus; precessing: turned
    together with the in-plane spins"""
    name = ctx.cycle(list(MODELS))
    p = start(ctx, name)
    delta = ctx.uniform(-6, 6, p["B"])
    a = cplx(ctx, name, p)
    s = p["s"].copy()
    if name == "IMRPhenomPv2":
        # the line of sight sits at azimuth pi/2 - phic
        c, sn = np.cos(-delta), np.sin(-delta)
        x, y = p["s"][..., 0], p["s"][..., 1]
        s[..., 0], s[..., 1] = c * x - sn * y, sn * x + c * y
    b = cplx(ctx, name, p, phic=p["phic"] + delta, s=s)
    ctx.state(name, p["sk"])
    ctx.event("rotations", p["B"])
    rot = np.exp(2j * delta)[:, None]
    tol = 1e-9 if name != "IMRPhenomPv2" else 1e-6
    want = [x * rot for x in a]
    law(ctx, f"{name}:phase", b, want, tol)


@family("P14", quick=80, thorough=3000)
def inclination(ctx):
    """aligned spins: cross = -i cos(inc) / ((1 + cos^2)/2) plus"""
    name = ctx.cycle(list(MODELS))
    p = start(ctx, name)
    if name == "IMRPhenomPv2":
        p["s"][..., :2] = 0
        along(p)
    ci = np.cos(p["inc"])[:, None]
    hp, hc = cplx(ctx, name, p)
    ctx.state(name, p["sk"], p["ik"])
    pf = 0.5 * (1 + ci**2)
    tol = 1e-9 if name != "IMRPhenomPv2" else 1e-6
    law(ctx, f"{name}:quadrature", [hp, hc],
        [hp, -1j * ci / pf * hp], tol)
    inc2 = np.arccos(ctx.uniform(-1, 1, p["B"]))
    c2 = np.cos(inc2)[:, None]
    b = cplx(ctx, name, p, inc=inc2)
    law(ctx, f"{name}:inclination", b,
        [hp / pf * 0.5 * (1 + c2**2), -1j * hp / pf * c2], tol * 100)


@family("P14", quick=60, thorough=2000)
def reference_frequency(ctx):
    """aligned: only a constant phase"""
    name = ctx.cycle(AL)
    p = start(ctx, name)
    a = cplx(ctx, name, p)
    b = cplx(ctx, name, p, fref=p["fref"] * float(ctx.loguniform(0.5, 3)))
    ctx.state(name, p["sk"])
    r = (b[0][:, :1] / a[0][:, :1])
    ctx.check(np.allclose(abs(r), 1, atol=1e-9), f"{name}:fref-modulus",
              f"modulus {abs(r).ravel()}")
    law(ctx, f"{name}:fref", b, [x * r for x in a],
        1e4 * phase_unit(p) + 1e-9)


@family("P14", quick=60, thorough=2000)
def each_frequency_alone(ctx):
    name = ctx.cycle(list(MODELS))
    p = start(ctx, name)
    a = cplx(ctx, name, p)
    n = len(p["f"])
    k = ctx.choice(["perm", "subset", "one", "extended"])
    if k == "perm":
        idx = ctx.rng.permutation(n)
    elif k == "subset":
        idx = np.sort(ctx.rng.choice(n, ctx.randint(2, n // 2), False))
    elif k == "one":
        idx = np.array([ctx.randint(0, n - 1)])
    else:
        idx = np.arange(n)
    f = p["f"][idx]
    if k == "extended":
        f = np.concatenate([f, ctx.uniform(5, 2000, 50)])
    b = cplx(ctx, name, p, f=f)
    ctx.state(name, k)
    m = len(idx)
    law(ctx, f"{name}:frequency-{k}", [x[:, :m] for x in b],
        [x[:, idx] for x in a], 1e3 * phase_unit(p) + 1e-10)


@family("P14", quick=60, thorough=2000)
def each_system_alone(ctx):
    """the other elements of the batch do not matter, nor does their order"""
    name = ctx.cycle(list(MODELS))
    p = start(ctx, name)
    if p["B"] == 1:
        rest = systems(ctx, name, ctx.choice([1, 2, 4, 6, 15, 31, 40]))
        for k in ROWS:
            p[k] = np.concatenate([p[k], rest[k]], int(k == "s"))
        p["B"] = len(p["mc"])
        p["f"] = p["f"][:: max(1, len(p["f"]) // 40)]
    a = cplx(ctx, name, p)
    k = ctx.choice(["one", "one", "perm", "half"])
    if k == "one":
        idx = np.array([ctx.randint(0, p["B"] - 1)])
    elif k == "half":
        idx = np.arange(p["B"] // 2, p["B"])
    else:
        idx = ctx.rng.permutation(p["B"])
    over = {j: p[j][:, idx] if j == "s" else p[j][idx] for j in ROWS}
    b = cplx(ctx, name, {**p, "B": len(idx)}, **over)
    ctx.state(name, "batch", k, min(p["B"], 8))
    law(ctx, f"{name}:batch-{k}", b, [x[idx] for x in a],
        1e3 * phase_unit(p) + 1e-10)


@family("P14", quick=60, thorough=2000)
def aligned_limit(ctx):
    """IMRPhenomPv2 with aligned spins is IMRPhenomD up to a constant phase
    and a time shift"""
    p = start(ctx, "IMRPhenomPv2")
    p["s"][..., :2] = 0
    along(p)
    p["f"] = np.linspace(p["f"].min(), p["f"].max(), 6001)
    tiny = ctx.slot(3) == 2
    P = {**p, "s": p["s"].copy()}
    if tiny:  # the limit is continuous
        p["q"] = P["q"] = np.maximum(p["q"], 0.35)
        P["s"][..., :2] = ctx.uniform(-1, 1, P["s"][..., :2].shape) * (
            ctx.choice([1e-6, 1e-8, 1e-10, 1e-12, 1e-14, 1e-17]))
        P["s"][..., 2] = np.clip(P["s"][..., 2], -0.9, 0.95)
        p["s"] = P["s"].copy()
        p["s"][..., :2] = 0
    a = evaluate(ctx, "IMRPhenomPv2", P)
    ctx.state("limit", p["sk"], p["qk"], tiny)
    if tiny:
        b = evaluate(ctx, "IMRPhenomPv2", p)
        law(ctx, "IMRPhenomPv2:small-in-plane", a, b, 1e-3)
        return
    b = evaluate(ctx, "IMRPhenomD", p)
    f = p["f"]
    for i in range(p["B"]):
        m1, m2 = components(p["mc"][i], p["q"][i])
        M = (m1 + m2) * MTSUN
        k = M * f < 0.2
        if k.sum() < 10:
            continue
        ctx.event("aligned_limits")
        fk = f[k]
        A, B = [x[i][k] for x in a], [x[i][k] for x in b]
        tot = np.sqrt(abs(B[0]) ** 2 + abs(B[1]) ** 2)
        ph = np.unwrap(np.angle(A[0] * B[0].conj() + A[1] * B[1].conj()))
        if not np.isfinite(ph).all():
            ctx.violate("IMRPhenomPv2:aligned-finite", "non-finite")
            continue
        L = np.stack([np.ones_like(fk), fk], 1)
        fit = L @ np.linalg.lstsq(L, ph, rcond=None)[0]
        e = np.sqrt(abs(A[0] - B[0] * np.exp(1j * fit)) ** 2
                    + abs(A[1] - B[1] * np.exp(1j * fit)) ** 2) / tot
        lo = M * fk < 0.017
        ctx.maximum("aligned", e.max())
        if lo.any():
            ctx.maximum("aligned_lo", abs(np.hypot(
                abs(A[0]), abs(A[1])) / tot - 1)[lo].max())
        ctx.check(e.max() < 1e-4, "IMRPhenomPv2:aligned-limit",
                  f"relative error {e.max():.3e}")


@family("P14", quick=40, thorough=1500)
def coalescence_time(ctx):
    """IMRPhenomPv2: h(tc) = h(0) exp(-2 pi i f tc)"""
    p = start(ctx, "IMRPhenomPv2")
    tc = ctx.uniform(-2, 2, p["B"])
    if ctx.slot(3) == 0:
        tc = tc * 1e-3
    t = lambda a: torch.tensor(np.asarray(a), dtype=F[1])  # noqa: E731
    m = MODELS["IMRPhenomPv2"]().double()
    args = [t(p["f"]), t(p["mc"]), t(p["q"]),
            *[t(p["s"][b, :, k]) for b in range(2) for k in range(3)],
            t(p["d"]), t(p["phic"]), t(p["inc"]), p["fref"]]
    if ctx.slot(4) == 0:
        hc, hp = ctx.call(m, *args, t(tc))
    else:
        hc, hp = ctx.call(m, *args, tc=t(tc))
    turn = np.exp(-2j * np.pi * p["f"] * tc[:, None])
    P, C = cplx(ctx, "IMRPhenomPv2", p)
    ctx.state(p["sk"])
    law(ctx, "coalescence-time", [hp.numpy(), hc.numpy()],
        [P * turn, C * turn], 1e-9)
