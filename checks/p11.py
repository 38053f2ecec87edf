"""P11: projection onto detectors against LAL and exact shifting."""

import lal
import numpy as np
import torch

from ml4gw.gw import (
    compute_antenna_responses,
    compute_observed_strain,
    get_ifo_geometry,
    shift_responses,
)
from ml4gw.transforms import WaveformProjector
from ml4gw.utils.interferometer import InterferometerGeometry
from vlib.core import family, to_np
from vlib.ids import id_series, layout

TECHNIQUE = ("runtime monitor: antenna factors and delays against LAL, "
             "projected strain against an explicit sum and shift")
NOTE = ("Antenna factors of every detector, mode, order and sky region are "
        "compared with LALSimulation's; projected strain with an explicit "
        "float64 sum over polarizations rolled by the truncated light travel "
        "time (either integer is accepted within rounding of a boundary); "
        "shifts are observed on series of unique ids.")
RULE = ("seeded sky positions (including poles, axes and wrap-around), "
        "detector lists, mode lists, sample rates, lengths, dtypes; distinct "
        "by these classes")
ASSUMPTIONS = ["LAL's detector constants and ComputeDetAMResponse are right "
               "(KAGRA's axes are tabulated to seven digits)"]
REQUIRED = {"large": 60, "antenna_factors": 20000, "shifted_series": 2000,
            "projected_series": 2000, "delays_nonzero": 500}

IFOS = ["H1", "L1", "V1", "K1"]
DET = {"H1": lal.LHO_4K_DETECTOR, "L1": lal.LLO_4K_DETECTOR,
       "V1": lal.VIRGO_DETECTOR, "K1": lal.KAGRA_DETECTOR}
DET = {k: lal.CachedDetectors[v] for k, v in DET.items()}
MODES = ["plus", "cross", "breathing"]
CLIGHT = 299792458.0


def detectors(ctx):
    n = ctx.randint(1, 4)
    if ctx.slot(40) == 21:  # more than there are sites
        return [ctx.choice(IFOS) for _ in range(ctx.randint(5, 12))]
    if ctx.slot(7) == 0:
        return [ctx.choice(IFOS) for _ in range(n)]  # repeats
    return [IFOS[i] for i in ctx.rng.permutation(4)[:n]]


def modes(ctx):
    n = ctx.randint(1, 3)
    return [MODES[i] for i in ctx.rng.permutation(3)[:n]]


def sky(ctx, B):
    """declination, psi, phi"""
    dec = np.arcsin(ctx.uniform(-1, 1, B))
    psi = ctx.uniform(0, np.pi, B)
    phi = ctx.uniform(-np.pi, np.pi, B)
    special = [0.0, np.pi / 2, -np.pi / 2, np.pi / 4, 1e-9, np.pi / 3]
    for a in (dec, psi, phi):
        k = ctx.rng.random(B) < 0.15
        a[k] = ctx.rng.choice(special, k.sum())
    k = ctx.rng.random(B) < 0.1
    phi[k] += ctx.choice([2 * np.pi, -2 * np.pi, np.pi])
    psi[k] += ctx.choice([np.pi, -np.pi, 7.0])
    return dec, psi, phi


def patterns(ifo, dec, psi, phi):
    """(B, 3) plus, cross, breathing from LAL"""
    d = DET[ifo]
    r = np.asarray(d.response)
    return np.array([
        lal.ComputeDetAMResponseExtraModes(r, float(p), float(de), float(ps),
                                           0.0)[:3]
        for de, ps, p in zip(dec, psi, phi)])


def delay(ifo, dec, phi):
    """seconds, arrival at the detector minus at the geocentre"""
    n = np.stack([np.cos(dec) * np.cos(phi), np.cos(dec) * np.sin(phi),
                  np.sin(dec)], -1)
    return -n @ np.asarray(DET[ifo].location) / CLIGHT


def t(ctx, a, dtype):
    return layout(ctx, torch.from_numpy(np.array(a)).to(dtype))


@family("P11", quick=700, thorough=12000)
def antenna(ctx):
    B = ctx.choice([1, 2, ctx.randint(1, 30)])
    if ctx.slot(20) == 9:
        B = ctx.choice([64, 65, 100, 128, 129, 256, 257, 512, 1025])
        ctx.event("large")
    ifos, mds = detectors(ctx), modes(ctx)
    dt = ctx.choice([torch.float32, torch.float64])
    dec, psi, phi = sky(ctx, B)
    ctx.params(ifos=ifos, modes=mds, B=B, dtype=str(dt))
    ten, ver = ctx.call(get_ifo_geometry, *ifos)
    if ctx.slot(3) == 0:
        ten = ten.to(ctx.choice([torch.float32, torch.float64]))
    dec, psi, phi = (to_np(torch.from_numpy(a).to(dt)).astype(float)
                     for a in (dec, psi, phi))
    args = (t(ctx, np.pi / 2 - dec, dt), t(ctx, psi, dt), t(ctx, phi, dt))
    out = ctx.call(compute_antenna_responses, *args, ten, mds)
    lalp = np.stack([patterns(i, dec, psi, phi) for i in ifos], -1)
    want = lalp[:, [MODES.index(m) for m in mds]]
    ctx.close(out, want, "antenna", "against LAL", rtol=0, atol=2e-6)
    ctx.event("antenna_factors", want.size)
    # unit bound and quarter turn
    full = ctx.call(compute_antenna_responses, *args, ten, MODES)
    ctx.check(((full[:, :2] ** 2).sum(1) < 1.001).all(), "unit-bound",
              "response above one")
    turn = ctx.choice([np.pi / 2, -np.pi / 2, 3 * np.pi / 2])
    o2 = ctx.call(compute_antenna_responses, args[0],
                  t(ctx, psi + turn, dt), args[2], ten, MODES)
    sign = np.array([-1, -1, 1])[:, None]
    ctx.close(o2, sign * to_np(full), "quarter-turn", "", rtol=0, atol=6e-6)
    a, b = np.cos(np.pi / 2), 1
    o3 = ctx.call(compute_antenna_responses, args[0],
                  t(ctx, psi + np.pi / 4, dt), args[2], ten, MODES)
    f = to_np(full).astype(float)
    eighth = np.stack([a * f[:, 0] + b * f[:, 1], -b * f[:, 0] + a * f[:, 1],
                       f[:, 2]], 1)
    ctx.close(o3, eighth, "eighth-turn", "", rtol=0, atol=6e-6)
    ctx.state("antenna", tuple(ifos), tuple(mds), str(dt))


@family("P11", quick=200, thorough=4000)
def precise(ctx):
    """made-up detectors, everything in double precision"""
    B, n, T = ctx.randint(1, 8), ctx.randint(1, 5), ctx.randint(1, 40)
    mds = [ctx.choice(MODES) for _ in range(ctx.randint(1, 5))]
    dec, psi, phi = sky(ctx, B)
    ten = ctx.rng.standard_normal((n, 3, 3))
    ten = ten + ten.swapaxes(1, 2)
    ctx.params(B=B, detectors=n, T=T, modes=mds)
    th = np.pi / 2 - dec
    u = np.stack([np.cos(phi) * np.cos(th), np.cos(th) * np.sin(phi),
                  -np.sin(th)], -1)
    v = np.stack([-np.sin(phi), np.cos(phi), 0 * phi], -1)
    s, c = np.sin(psi)[:, None], np.cos(psi)[:, None]
    m, q = -u * s - v * c, -u * c + v * s
    mm, qq = m[:, :, None] * m[:, None], q[:, :, None] * q[:, None]
    mq = m[:, :, None] * q[:, None]
    pol = {"plus": mm - qq, "cross": mq + mq.swapaxes(1, 2),
           "breathing": mm + qq}
    F = {k: np.einsum("bij,nij->bn", p, ten) for k, p in pol.items()}
    d = torch.float64
    out = ctx.call(compute_antenna_responses, t(ctx, th, d), t(ctx, psi, d),
                   t(ctx, phi, d), t(ctx, ten, d), mds)
    ctx.close(out, np.stack([F[k] for k in mds], 1), "antenna-precise",
              "double precision", rtol=0, atol=1e-12)
    h = {k: ctx.rng.standard_normal((B, T)) for k in dict.fromkeys(mds)}
    sr = ctx.choice([64.0, 2048.0])
    lag = ctx.rng.integers(-2 * T, 2 * T, n) + ctx.uniform(0.1, 0.9, n)
    # every detector straight above or below: the delay is known exactly
    k = ctx.rng.integers(0, 2, B) * 2.0 - 1
    dec = k * np.pi / 2
    ver = np.zeros((n, 3))
    ver[:, 2] = -lag / sr * CLIGHT
    th = np.pi / 2 - dec
    psi2 = psi
    got = ctx.call(compute_observed_strain, t(ctx, dec, d), t(ctx, psi2, d),
                   t(ctx, phi, d), t(ctx, ten, d), t(ctx, ver, d), sr,
                   **{a: t(ctx, b, d) for a, b in h.items()})
    a = ctx.call(compute_antenna_responses, t(ctx, th, d), t(ctx, psi2, d),
                 t(ctx, phi, d), t(ctx, ten, d), list(h))
    a = to_np(a)
    for b in range(B):
        for j in range(n):
            w = sum(a[b, i, j] * v[b] for i, v in enumerate(h.values()))
            w = np.roll(w, int(np.trunc(k[b] * lag[j])))
            ctx.close(got[b, j], w, "strain-precise", "double precision",
                      rtol=0, atol=1e-12 * (1 + np.abs(w).max()))
    ctx.event("precise_series", B * n)
    ctx.event("antenna_factors", B * n * len(mds))
    ctx.state("precise", tuple(mds), n)


@family("P11", quick=20, thorough=40)
def geometry(ctx):
    """the tabulated detectors"""
    ifo = ctx.cycle(IFOS)
    d, g = DET[ifo], ctx.call(InterferometerGeometry, ifo)
    ten, ver = ctx.call(get_ifo_geometry, ifo)
    ctx.params(ifo=ifo)
    ctx.close(ten[0], np.asarray(d.response), "tensor", ifo, rtol=0,
              atol=3e-7)
    ctx.close(ver[0], np.asarray(d.location), "vertex", ifo, rtol=0, atol=1.0)
    ctx.close(g.vertex, np.asarray(d.location), "vertex", ifo, rtol=0,
              atol=1.0)
    arms = to_np(g.x_arm), to_np(g.y_arm)
    for a in arms:
        ctx.close((a**2).sum(), np.array(1.0), "arm", "unit length", rtol=0,
                  atol=1e-6)
    bad = ctx.choice(["G1", "h1", "", "H2", "LHO"])
    ctx.raises(ValueError, "unknown-detector", InterferometerGeometry, bad)
    ctx.raises(ValueError, "unknown-detector", get_ifo_geometry, ifo, bad)
    ctx.raises(ValueError, "unknown-mode", compute_antenna_responses,
               torch.ones(2), torch.ones(2), torch.ones(2), ten,
               ["plus", ctx.choice(["Plus", "longitudinal", "x"])])
    z = torch.zeros(2)
    ctx.raises(ValueError, "unknown-mode", compute_observed_strain, z, z, z,
               ten, ver, 64, plus=torch.randn(2, 8), bad=torch.randn(2, 8))
    # the delay formula itself, once per detector
    t0 = lal.LIGOTimeGPS(1e9)
    gmst = lal.GreenwichMeanSiderealTime(t0)
    for _ in range(20):
        dec, phi = np.arcsin(ctx.uniform(-1, 1)), ctx.uniform(0, 6.28)
        ref = lal.TimeDelayFromEarthCenter(d.location, phi + gmst, dec, t0)
        ctx.close(delay(ifo, np.array(dec), np.array(phi)), np.array(ref),
                  "oracle-delay", ifo, rtol=0, atol=1e-9)
    ctx.state(ifo, bad)


def rolled(ctx, got, series, dt, kind, slack=2e-3, **kw):
    """got == series shifted by dt samples, truncated; a delay within
    rounding of an integer may be truncated either way"""
    lo = int(np.trunc(dt))
    opts = {lo}
    near = int(np.round(dt))
    if abs(dt - near) < slack:
        opts |= {near, near - int(np.sign(near)) if near else 0}
    best = min(opts, key=lambda s: np.abs(np.roll(series, s) - got).max())
    ctx.event("delays_nonzero", lo != 0)
    return ctx.close(got, np.roll(series, best), kind,
                     f"delay of {dt:.4f} samples", **kw)


@family("P11", quick=500, thorough=10000)
def shifting(ctx):
    """series of unique ids reveal exactly where every sample went"""
    B, ifos = ctx.randint(1, 6), detectors(ctx)
    T = ctx.choice([1, 2, ctx.randint(3, 60), ctx.randint(60, 1500)])
    if ctx.slot(20) == 14:
        ctx.event("large")
        if ctx.slot(40) == 14:
            T = ctx.choice([4096, 16384, 32768, 65536, ctx.randint(1500, 70000)])
            B = ctx.randint(1, 2)
        else:
            B = ctx.choice([16, 17, 32, 33, 64, 65, 128, 129, 257, 513])
            T = ctx.randint(1, 40)
    sr = ctx.choice([64, 128.0, 2048, 4096.0, 16384, 1234.5, 65536])
    dec, _, phi = sky(ctx, B)
    adt = ctx.choice([torch.float32, torch.float64])
    dt = ctx.choice([torch.float32, torch.float64])
    _, ver = ctx.call(get_ifo_geometry, *ifos)
    how = ctx.cycle(["earth", "earth", "origin", "far"])
    locs = np.stack([np.asarray(DET[i].location) for i in ifos])
    reach = 1.0
    if how == "origin":  # one detector taken as the origin
        k = ctx.randint(0, len(ifos) - 1)
        ver = ver - ver[k]
        locs = locs - locs[k]
    elif how == "far":
        reach = ctx.loguniform(2, 200)
        ver, locs = ver * reach, locs * reach
    if ctx.slot(2):
        ver = ver.double()
    ids = id_series(ctx, (B, len(ifos), T), dt)
    x = layout(ctx, ids)
    ctx.params(B=B, ifos=ifos, T=T, sr=sr, how=how, dtype=str(dt),
               angles=str(adt))
    out = ctx.call(shift_responses, x, t(ctx, np.pi / 2 - dec, adt),
                   t(ctx, phi, adt), ver, sr)
    ctx.need(tuple(out.shape) == tuple(x.shape) and out.dtype == dt,
             "shift-shape", f"{tuple(out.shape)} {out.dtype}")
    n = np.stack([np.cos(dec) * np.cos(phi), np.cos(dec) * np.sin(phi),
                  np.sin(dec)], -1)
    lag = -n @ locs.T / CLIGHT * sr
    for b in range(B):
        for j in range(len(ifos)):
            rolled(ctx, to_np(out[b, j]).astype(float),
                   to_np(ids[b, j]).astype(float), lag[b, j], "shift",
                   slack=2e-3 + 1e-4 * reach, rtol=0, atol=0)
            ctx.event("shifted_series")
    ctx.state("shift", len(ifos), how, min(T, 3), str(adt), sr)


@family("P11", quick=600, thorough=10000)
def strain(ctx):
    B, ifos, mds = ctx.randint(1, 6), detectors(ctx), modes(ctx)
    T = ctx.choice([1, 2, ctx.randint(3, 60), ctx.randint(60, 600)])
    if ctx.slot(20) == 14:
        ctx.event("large")
        if ctx.slot(40) == 14:
            T = ctx.choice([2048, 4096, 16384, 32768, ctx.randint(600, 40000)])
            B = ctx.randint(1, 2)
        else:
            B = ctx.choice([16, 17, 32, 33, 64, 65, 128, 129, 257])
            T = ctx.randint(1, 40)
    elif ctx.slot(9) == 0:
        B = len(ifos)
    if ctx.slot(11) == 0:
        T = len(mds)
    sr = ctx.choice([64, 128.0, 2048, 4096.0, 16384, 1234.5])
    dec, psi, phi = sky(ctx, B)
    adt = ctx.choice([torch.float32, torch.float64])
    dt = ctx.choice([torch.float32, torch.float64])
    dec, psi, phi = (to_np(torch.from_numpy(a).to(adt)).astype(float)
                     for a in (dec, psi, phi))
    amp = ctx.choice([1.0, 1e-21])
    pols = {m: ctx.rng.standard_normal((B, T)) * amp for m in mds}
    pt = {m: t(ctx, v, dt) for m, v in pols.items()}
    ang = (t(ctx, dec, adt), t(ctx, psi, adt), t(ctx, phi, adt))
    ctx.params(B=B, T=T, ifos=ifos, modes=mds, sr=sr, dtype=str(dt),
               angles=str(adt))
    if ctx.slot(3):
        ten, ver = ctx.call(get_ifo_geometry, *ifos)
        if ctx.slot(2):
            ten, ver = ten.double(), ver.double()
        out = ctx.call(compute_observed_strain, *ang, ten, ver, sr, **pt)
    else:
        proj = ctx.call(WaveformProjector, ifos, sr)
        out = ctx.call(proj, *ang, **pt)
    ctx.need(tuple(out.shape) == (B, len(ifos), T), "strain-shape",
             str(tuple(out.shape)))
    ctx.check(out.dtype == dt, "strain-dtype", str(out.dtype))
    for j, ifo in enumerate(ifos):
        F = patterns(ifo, dec, psi, phi)
        lag = delay(ifo, dec, phi) * sr
        for b in range(B):
            h = sum(F[b, MODES.index(m)] * to_np(pt[m][b]).astype(float)
                    for m in mds)
            top = sum(np.abs(pols[m][b]).max() for m in mds)
            rolled(ctx, to_np(out[b, j]).astype(float), h, lag[b], "strain",
                   rtol=0, atol=6e-6 * top)
            ctx.event("projected_series")
    if len(mds) > 1:  # the order of the keywords does not matter
        o = ctx.call(compute_observed_strain, *ang,
                     *ctx.call(get_ifo_geometry, *ifos), sr,
                     **{m: pt[m] for m in reversed(mds)})
        same = ctx.call(compute_observed_strain, *ang,
                        *ctx.call(get_ifo_geometry, *ifos), sr, **pt)
        ctx.close(o, to_np(same).astype(float), "mode-order", "", rtol=0,
                  atol=5e-6 * amp * 10)
    ctx.state("strain", tuple(ifos), tuple(mds), min(T, 3), sr)
