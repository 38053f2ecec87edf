"""P16: mass and spin conversions, conditioning bounds."""

import lal
import lalsimulation as ls
import numpy as np
import torch

from ml4gw import constants
from ml4gw.waveforms import conversion as cv
from ml4gw.waveforms.cbc import utils
from vlib.core import family, to_np
from vlib.lalref import MTSUN

TECHNIQUE = ("runtime monitor: every converted value against LALSimulation's "
             "and bilby's conversions, round trips, conserved norms and "
             "finiteness over random, degenerate and hostile systems")
NOTE = ("Conversions run on random batches (both precisions), aligned, "
        "anti-aligned, spinless, face-on and collinear systems; every element "
        "is compared with LALSimulation, its magnitudes and angles are "
        "recomputed, and the time/frequency bounds are compared with LAL's.")
RULE = ("seeded random system; distinct by degeneracy class, precision, mass "
        "decade and reference frequency")
ASSUMPTIONS = ["lalsimulation and bilby are the reference",
               "bounds are called in double precision kilograms, as the "
               "generator calls them"]
REQUIRED = {"large": 4, "spin_conversions": 1000, "mass_conversions": 1000,
            "bounds_compared": 500, "refusals_checked": 5}


@family("P16", quick=200, thorough=6000, priority=1)
def masses_round_trip(ctx):
    dtype = ctx.cycle([torch.float64, torch.float32])
    B = ctx.choice([1, 2, 17, 100, 100, 129, 513, 1025])
    k = ctx.choice(["any", "equal", "extreme", "light", "some-equal"])
    lo = {"any": 0.05, "equal": 1.0, "extreme": 1e-4, "light": 0.01,
          "some-equal": 0.05}[k]
    q = torch.tensor(ctx.loguniform(lo, 1, B)).to(dtype)
    if k == "equal":
        q = torch.ones(B, dtype=dtype)
    elif k == "some-equal":
        q[torch.from_numpy(ctx.rng.random(B) < 0.4)] = 1
    mc = torch.tensor(ctx.loguniform(0.1, 500, B)).to(dtype)
    if k == "light":
        mc = mc * 1e-3
    shape = ctx.choice([(B,), (B, 1), (1, B)])
    mc, q = mc.reshape(shape), q.reshape(shape)
    ctx.params(dtype=dtype, B=B, k=k, mc=mc, q=q)
    ctx.state(k, str(dtype), shape)
    m1, m2 = ctx.call(cv.chirp_mass_and_mass_ratio_to_components, mc, q)
    ctx.event("mass_conversions", B)
    e = torch.finfo(dtype).eps
    a, b = to_np(m1).astype(float), to_np(m2).astype(float)
    ctx.check(m1.dtype == dtype and m2.dtype == dtype, "dtype",
              f"{m1.dtype}, {m2.dtype}")
    ctx.check((a > 0).all() and (b > 0).all(), "positive")
    ctx.check((a >= b).all(), "order", "the first body is not the heavier",
              m1=m1, m2=m2)
    with np.errstate(all="ignore"):
        ctx.close((a * b) ** 0.6 / (a + b) ** 0.2, mc, "chirp-mass",
                  rtol=40 * e)
        ctx.close(b / a, q, "mass-ratio", rtol=20 * e)
    from bilby.gw import conversion as bb

    x, y = bb.chirp_mass_and_mass_ratio_to_component_masses(
        to_np(mc).astype(float), to_np(q).astype(float))
    ctx.close(a, x, "mass_1", rtol=40 * e)
    ctx.close(b, y, "mass_2", rtol=40 * e)


KINDS = ["random", "random", "aligned", "anti", "mixed", "spinless", "one",
         "equal", "nearly", "heavy-spin", "face-on", "collinear", "flip", "assorted"]


def system(ctx, kind, B, fref=None):
    u = ctx.uniform
    p = dict(
        theta_jn=u(0, np.pi, B), phi_jl=u(0, 2 * np.pi, B),
        tilt_1=u(0, np.pi, B), tilt_2=u(0, np.pi, B),
        phi_12=u(0, 2 * np.pi, B), a_1=u(0, 1, B), a_2=u(0, 1, B),
    )
    m1 = ctx.loguniform(1, 200, B)
    p["mass_1"], p["mass_2"] = m1, m1 * u(0.05, 1, B)
    p["phi_ref"] = u(0, 2 * np.pi, B)
    fref = fref or float(ctx.choice([5, 20, 40, 50, 100,
                                     ctx.uniform(1, 200)]))
    z = np.zeros(B)
    if kind == "aligned":
        p["tilt_1"], p["tilt_2"] = z, z.copy()
    elif kind == "anti":
        p["tilt_1"], p["tilt_2"] = z + np.pi, z + np.pi
    elif kind == "mixed":
        p["tilt_1"] = np.where(u(0, 1, B) < 0.5, 0, np.pi)
        p["tilt_2"] = np.where(u(0, 1, B) < 0.5, 0, np.pi)
    elif kind == "spinless":
        p["a_1"], p["a_2"] = z, z.copy()
    elif kind == "one":
        p[ctx.choice(["a_1", "a_2"])] = z
    elif kind == "equal":
        p["mass_2"] = m1.copy()
        p["a_2"] = p["a_1"].copy()
    elif kind == "nearly":
        s = ctx.loguniform(1e-9, 1e-2)
        p["tilt_1"], p["tilt_2"] = p["tilt_1"] * s, p["tilt_2"] * s
    elif kind == "heavy-spin":
        p["mass_2"] = m1 * u(0.02, 0.1, B)
        p["a_1"] = u(0.9, 1, B)
        p["tilt_1"] = u(2.5, np.pi, B)
    elif kind == "face-on":
        p["theta_jn"] = np.where(u(0, 1, B) < 0.5, 0, np.pi)
    elif kind == "collinear":  # L along N: cos(inclination) = 1
        p["phi_jl"] = z + np.pi / 2
        p["theta_jn"] = theta_lj(p, fref)
    elif kind == "flip":
        p["phi_jl"] = z - np.pi / 2
        p["theta_jn"] = np.pi - theta_lj(p, fref)
    return p, fref


def theta_lj(p, fref):
    """the angle between L and J"""
    m1, m2 = p["mass_1"], p["mass_2"]
    eta = m1 * m2 / (m1 + m2) ** 2
    v = ((m1 + m2) * MTSUN * np.pi * fref) ** (1 / 3)
    L = (m1 + m2) ** 2 * eta / v * (1 + v * v * (1.5 + eta / 6))
    a, b = m1**2 * p["a_1"], m2**2 * p["a_2"]
    x = a * np.sin(p["tilt_1"]) + b * np.sin(p["tilt_2"]) * np.cos(p["phi_12"])
    y = b * np.sin(p["tilt_2"]) * np.sin(p["phi_12"])
    z = L + a * np.cos(p["tilt_1"]) + b * np.cos(p["tilt_2"])
    return np.arctan2(np.hypot(x, y), z)


ORDER = ["theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2",
         "mass_1", "mass_2"]


@family("P16", quick=400, thorough=20000, priority=1)
def spins_against_lal(ctx):
    dtype = ctx.choice([torch.float64, torch.float64, torch.float32])
    kind = ctx.cycle(KINDS)
    B = ctx.choice([1, 8, 32])
    if ctx.slot(20) == 11:
        B = ctx.choice([64, 65, 100, 129, 257])
        ctx.event("large")
    if kind == "assorted":
        fref = float(ctx.choice([5, 20, 40, 100, ctx.uniform(1, 200)]))
        each = [system(ctx, ctx.choice(KINDS[:-1]), 1, fref)[0]
                for _ in range(B)]
        p = {k: np.concatenate([e[k] for e in each]) for k in each[0]}
    else:
        p, fref = system(ctx, kind, B)
    t = {k: torch.tensor(v).to(dtype) for k, v in p.items()}
    ctx.params(kind=kind, fref=fref, dtype=dtype, **p)
    ctx.state(kind, str(dtype), round(np.log2(fref)))
    if ctx.slot(2):
        out = ctx.call(cv.bilby_spins_to_lalsim, **t, f_ref=fref)
    else:
        out = ctx.call(cv.bilby_spins_to_lalsim, *(t[k] for k in ORDER), fref,
                       t["phi_ref"])
    ctx.need(len(out) == 7, "count")
    ctx.event("spin_conversions", B)
    got = np.stack([to_np(o).astype(float) for o in out])
    ctx.need(got.shape == (7, B), "shape", str(got.shape))
    ctx.check(all(o.dtype == dtype for o in out), "dtype",
              str([o.dtype for o in out]))
    bad = ~np.isfinite(got)
    ctx.need(not bad.any(), "not-finite",
             f"{kind}: element {np.argwhere(bad)[:1].tolist()} not finite")
    d = {k: to_np(v).astype(float) for k, v in t.items()}
    ref = np.array([
        ls.SimInspiralTransformPrecessingNewInitialConditions(
            *(float(d[k][i]) for k in ORDER[:-2]),
            d["mass_1"][i] * lal.MSUN_SI, d["mass_2"][i] * lal.MSUN_SI, fref,
            float(d["phi_ref"][i]))
        for i in range(B)]).T
    e = torch.finfo(dtype).eps
    inc = np.abs(got[0] - ref[0])
    # an arccosine near its end points amplifies rounding
    tol_i = 30 * e / np.maximum(np.sin(ref[0]), 3 * np.sqrt(e))
    lj = theta_lj(d, fref)
    amp = 1 / np.maximum(np.abs(np.sin(lj)), np.sqrt(e))
    tol_i = tol_i + 60 * e * amp**2 * np.abs(np.sin(lj))
    tol_i = tol_i * 8
    ok = np.isnan(ref[0]) | (inc <= tol_i)
    ctx.maximum(f"inclination_{str(dtype)[-2:]}", np.nanmax(inc / tol_i))
    ctx.check(ok.all(), f"inclination:{str(dtype)[6:]}",
              f"{kind}: off by {inc[~ok][:3]} (tolerance {tol_i[~ok][:3]})")
    spins = np.abs(got[1:] - ref[1:])
    # azimuths about a direction barely defined are amplified too
    plane = np.array([d["a_1"] * np.sin(d["tilt_1"]),
                      d["a_2"] * np.sin(d["tilt_2"])]).max(0)
    sn = np.nan_to_num(np.abs(np.sin(ref[0])))
    tol = 60 * e * (1 + plane * (amp**2 + 1 / np.maximum(sn, e) ** 2)) \
        + 6 * np.sqrt(e) * (lj < 1e3 * np.sqrt(e)) \
        + 6 * np.sqrt(e) * (np.pi - lj < 1e3 * np.sqrt(e))
    # N along L: the azimuth about L is anyone's
    tol = np.where(sn < 1e3 * np.sqrt(e), 2.0, tol)
    ok = np.isnan(ref[1:]) | (spins <= tol)
    ctx.maximum(f"spins_{str(dtype)[-2:]}", np.nanmax(spins / tol))
    ctx.event("well_conditioned", (tol < 1e3 * e).sum())
    ctx.check(ok.all(), f"components:{str(dtype)[6:]}",
              f"{kind}: off by {spins.max():.3e}, elements "
              f"{np.argwhere(~ok)[:4].tolist()}")
    # lengths, tilts and the angle between the spins are unchanged
    for b in (0, 1):
        s = got[1 + 3 * b : 4 + 3 * b]
        a, tilt = d[f"a_{b + 1}"], d[f"tilt_{b + 1}"]
        ctx.close(np.sqrt((s**2).sum(0)), a, "magnitude", rtol=60 * e,
                  atol=e * 1e-3)
        ctx.close(s[2], a * np.cos(tilt), "tilt", rtol=0,
                  atol=60 * e + 6 * np.sqrt(e) * np.abs(np.sin(tilt)).max())
    dot = (got[1:4] * got[4:7]).sum(0)
    ctx.close(dot, d["a_1"] * d["a_2"] * (
        np.sin(d["tilt_1"]) * np.sin(d["tilt_2"]) * np.cos(d["phi_12"])
        + np.cos(d["tilt_1"]) * np.cos(d["tilt_2"])), "angle", rtol=0,
        atol=100 * e)
    if kind in ("aligned", "anti", "mixed", "spinless"):
        # bilby: the spins stay along L
        for j in (1, 2, 4, 5):
            ctx.close(got[j], 0 * got[j], "in-plane", rtol=0,
                      atol=10 * np.sqrt(e))
        a = d["a_1"] * d["mass_1"] ** 2 * np.cos(d["tilt_1"]) \
            + d["a_2"] * d["mass_2"] ** 2 * np.cos(d["tilt_2"])
        up = a > 0
        ctx.close(got[0][up], d["theta_jn"][up], "aligned-inclination",
                  rtol=0, atol=20 * np.sqrt(e))


@family("P16", quick=60, thorough=400)
def against_bilby(ctx):
    from bilby.gw.conversion import bilby_to_lalsimulation_spins

    kind = ctx.cycle(["random", "aligned", "one", "equal", "spinless"])
    p, fref = system(ctx, kind, 6)
    ctx.params(kind=kind, fref=fref, **p)
    ctx.state(kind)
    t = {k: torch.tensor(v) for k, v in p.items()}
    out = ctx.call(cv.bilby_spins_to_lalsim, **t, f_ref=fref)
    got = np.stack([to_np(o) for o in out])
    ctx.event("spin_conversions", 6)
    for i in range(6):
        ref = bilby_to_lalsimulation_spins(
            p["theta_jn"][i], p["phi_jl"][i], p["tilt_1"][i], p["tilt_2"][i],
            p["phi_12"][i], p["a_1"][i], p["a_2"][i],
            p["mass_1"][i] * lal.MSUN_SI, p["mass_2"][i] * lal.MSUN_SI, fref,
            p["phi_ref"][i])
        ctx.close(got[:, i], np.array(ref, float), "bilby", rtol=0, atol=3e-6)


@family("P16", quick=12, thorough=100)
def refuses_reference_frequencies(ctx):
    p, _ = system(ctx, "random", ctx.choice([1, 4]))
    t = {k: torch.tensor(v) for k, v in p.items()}
    f = ctx.cycle([0, 0.0, -1.0, -1e-12, -40, -float("inf")])
    ctx.params(f_ref=f)
    ctx.state(f)
    ctx.raises(ValueError, "f_ref", cv.bilby_spins_to_lalsim, **t, f_ref=f)
    # and the smallest positive is served
    out = ctx.call(cv.bilby_spins_to_lalsim, **t, f_ref=1e-3)
    ctx.check(all(torch.isfinite(o).all() for o in out), "not-finite")


@family("P16", quick=150, thorough=4000, priority=1)
def bounds_against_lal(ctx):
    B = ctx.choice([1, 5, 40, 130])
    u = ctx.uniform
    m1 = ctx.loguniform(0.5, 500, B)
    m2 = m1 * u(0.02, 1, B)
    if ctx.slot(3) == 0:
        m1, m2 = m2, m1
    k = ctx.choice(["random", "extreme", "zero", "one"])
    s = {"random": lambda: u(-1, 1, B), "zero": lambda: np.zeros(B),
         "extreme": lambda: ctx.rng.choice([-1.0, -0.998, 0.998, 0.99, 1.0], B),
         "one": lambda: u(-0.1, 0.1, B)}[k]
    s1, s2 = s(), s()
    f = ctx.loguniform(1, 200, B)
    T = lambda a: torch.tensor(a)  # noqa: E731
    a, b = T(m1 * lal.MSUN_SI), T(m2 * lal.MSUN_SI)
    f32 = ctx.choice([True, False])  # spins come in either precision
    x, y = T(s1), T(s2)
    if f32:
        x, y = x.float(), y.float()
        s1, s2 = to_np(x).astype(float), to_np(y).astype(float)
    ctx.params(m1=m1, m2=m2, s1=s1, s2=s2, f=f, k=k)
    ctx.state(k, f32, B)
    e = 6e-7
    ms1, ms2 = m1 * lal.MSUN_SI, m2 * lal.MSUN_SI
    ctx.event("bounds_compared", 6 * B)

    def against(name, got, fn):
        ref = np.array([fn(i) for i in range(B)])
        got = to_np(got).astype(float)
        ctx.close(got, ref, name, rtol=e, atol=1e-30)
        return ref

    tc = ctx.call(utils.chirp_time_bound, T(f), a, b, x, y)
    ref = against("chirp-time", tc, lambda i: ls.SimInspiralChirpTimeBound(
        f[i], ms1[i], ms2[i], s1[i], s2[i]))
    fs = ctx.call(utils.chirp_start_frequency_bound, T(1.1 * ref), a, b)
    against("start-frequency", fs,
            lambda i: ls.SimInspiralChirpStartFrequencyBound(
                1.1 * ref[i], ms1[i], ms2[i]))
    sb = ctx.call(utils.final_black_hole_spin_bound, x, y)
    against("final-spin", sb, lambda i: ls.SimInspiralFinalBlackHoleSpinBound(
        s1[i], s2[i]))
    ctx.check((sb <= 0.998 + 1e-6).all(), "final-spin:bound")
    tm = ctx.call(utils.merge_time_bound, a, b)
    against("merge-time", tm,
            lambda i: ls.SimInspiralMergeTimeBound(ms1[i], ms2[i]))
    # the rest of the spin range: 1 - s amplifies single precision spins
    sp = u(0, 0.998, B)
    tr = ctx.call(utils.ringdown_time_bound, a + b, T(sp))
    against("ringdown-time", tr, lambda i: ls.SimInspiralRingdownTimeBound(
        ms1[i] + ms2[i], sp[i]))
    fi = ctx.call(utils.frequency_isco, a, b)
    against("isco", fi, lambda i: 1 / (9**1.5 * np.pi * (m1[i] + m2[i])
                                      * MTSUN))
    # a later start takes less time; the bound inverts
    t2 = ctx.call(utils.chirp_time_bound, T(f * 1.5), a, b, x, y)
    ctx.check((t2 < tc).all(), "monotone")


@family("P16", quick=60, thorough=300)
def rotations(ctx):
    dtype = ctx.cycle([torch.float64, torch.float32])
    n = ctx.choice([1, 7, 64, 300])
    ang = torch.tensor(ctx.uniform(-7, 7, n)).to(dtype)
    v = torch.tensor(ctx.uniform(-2, 2, (3, n))).to(dtype)
    ctx.params(n=n, dtype=dtype)
    ctx.state(n, str(dtype))
    e = torch.finfo(dtype).eps
    c, s = np.cos(to_np(ang).astype(float)), np.sin(to_np(ang).astype(float))
    x, y, z = to_np(v).astype(float)
    out = torch.stack(ctx.call(cv.rotate_z, ang, *v))
    ctx.event("rotations", 2 * n)
    ctx.close(out, np.stack([c * x - s * y, s * x + c * y, z]), "rotate-z",
              rtol=0, atol=20 * e)
    out = torch.stack(ctx.call(cv.rotate_y, ang, *v))
    ctx.close(out, np.stack([c * x + s * z, y, c * z - s * x]), "rotate-y",
              rtol=0, atol=20 * e)
    m, eta = ctx.uniform(1, 100, n), ctx.uniform(0.01, 0.25, n)
    w = ctx.uniform(0.05, 0.6, n)
    T = torch.tensor
    ctx.close(cv.XLALSimInspiralLN(T(m), T(eta), T(w)), m * m * eta / w,
              "newtonian-L", rtol=1e-14)
    ctx.close(cv.XLALSimInspiralL_2PN(T(eta)), 1.5 + eta / 6, "2pn-L",
              rtol=1e-14)


@family("P16", quick=1, thorough=1)
def unit_constants(ctx):
    """the constants the conversions are made of"""
    ref = {"MSUN": lal.MSUN_SI, "MRSUN": lal.MRSUN_SI, "G": lal.G_SI,
           "C": lal.C_SI, "PI": lal.PI, "TWO_PI": lal.TWOPI,
           "MTSUN_SI": lal.MTSUN_SI, "EulerGamma": lal.GAMMA,
           "m_per_Mpc": lal.PC_SI * 1e6, "MPC_SEC": lal.PC_SI * 1e6 / lal.C_SI,
           "gt": lal.G_SI * lal.MSUN_SI / lal.C_SI**3}
    ctx.event("constants", len(ref))
    for k, v in ref.items():
        tol = 1e-3 if k == "gt" else 1e-7
        x = getattr(constants, k)
        ctx.check(abs(x / v - 1) < tol, f"constant:{k}", f"{x} != {v}")
