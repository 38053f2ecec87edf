"""P18: priors."""

import numpy as np
import torch
from astropy import units as u
from astropy.cosmology import FlatLambdaCDM
from scipy import integrate, stats

from ml4gw import distributions as D
from vlib.core import family, to_np
from vlib.stats import P_FALSE, chi2_p, ks_p

TECHNIQUE = ("runtime monitor: online support and shape checks on every draw, "
             "goodness-of-fit tests of recorded draws against independent "
             "distribution functions, and log densities against quadrature")
NOTE = ("Each prior is instantiated with random bounds and parameters; every "
        "draw is checked against its support, the empirical distribution "
        "against an independent closed form or an astropy cosmology, and the "
        "reported log density pointwise and by its integral.")
RULE = ("seeded random prior; distinct by prior class, parameter regime and "
        "sample shape")
ASSUMPTIONS = ["false-alarm probability per statistical test 1e-10",
               "outside the bounds a refusal counts as minus infinity",
               "bounds hold up to single-precision rounding"]
REQUIRED = {"wide_near_log": 5, "draws": 1000000, "densities": 3000, "fits": 80}


def uniforms(ctx):
    """a random prior: name, object, lo, hi, pdf, cdf (float64 closed forms)"""
    k = ctx.cycle(["cosine", "sine", "log-uniform", "log-normal",
                   "truncated", "power", "power", "inverse"])
    U = ctx.uniform
    if k in ("cosine", "sine"):
        s = 0 if k == "cosine" else np.pi / 2
        if ctx.choice([True, False]):
            a, b = -np.pi / 2, np.pi / 2
            d = D.Cosine() if k == "cosine" else D.Sine()
        else:
            a, b = np.sort(U(-np.pi / 2, np.pi / 2, 2))
            if b - a < 0.05:
                a, b = -1.0, 0.3
            d = (D.Cosine if k == "cosine" else D.Sine)(a + s, b + s)
        n = np.sin(b) - np.sin(a)
        return (k, d, a + s, b + s, lambda x: np.cos(x - s) / n,
                lambda x: (np.sin(x - s) - np.sin(a)) / n)
    if k == "log-uniform":
        a = float(ctx.loguniform(*ctx.choice(
            [(1e-4, 100), (1e-4, 100), (1e-30, 1e32)])))
        b = a * float(ctx.loguniform(1.1, 1e5))
        d = D.LogUniform(a, b)
        n = np.log(b / a)
        return k, d, a, b, lambda x: 1 / (x * n), lambda x: np.log(x / a) / n
    if k in ("log-normal", "truncated"):
        m, s = float(U(-3, 3)), float(U(0.1, 2))
        r = stats.lognorm(s, scale=np.exp(m))
        low = None
        if k == "truncated":
            low = float(ctx.choice([0, np.exp(m + s * U(-3, 4))]))
        elif ctx.choice([True, False]):
            m, low = ctx.randint(-1, 2), None
            r = stats.lognorm(s, scale=np.exp(m))
        d = D.LogNormal(m, s, low) if low is not None else D.LogNormal(m, s)
        a = low or 0.0
        t = r.sf(a)
        return (k, d, a, np.inf, lambda x: r.pdf(x) / t,
                lambda x: 1 - r.sf(x) / t)
    a = float(ctx.loguniform(1e-2, 100))
    b = a * float(ctx.loguniform(1.2, 1e3))
    if k == "inverse":
        n = np.log(b / a)
        return (k, D.PowerLaw(a, b, -1), a, b, lambda x: 1 / (x * n),
                lambda x: np.log(x / a) / n)
    al = ctx.choice([2, 2, -4, -2, 1, 3, 0.5, -0.5, -2.35,
                     float(U(-4, 4))])
    near = {1: (0.03, 0.3), 3: (2e-3, 0.03)}.get(ctx.slot(4))
    if near:  # next to the logarithmic law
        al = -1 + ctx.choice([-1, 1]) * float(ctx.loguniform(*near))
    if near and ctx.choice([True, False]):  # so wide that it still differs
        w = float(ctx.uniform(0.6, 1)) * min(1.7 / abs(al + 1), 60)
        a = 10 ** float(ctx.uniform(-30, 30 - w))
        b = a * 10**w
        ctx.event("wide_near_log")
    elif abs(al + 1) < 0.02 or al == 0:
        al = 2
    if al > 0 and ctx.choice([True, False]):
        a = 0.0
    if al < -1.5 and ctx.choice([True, False]):
        b = np.inf
    p = ctx.root = al + 1
    # (b/a)**p must survive single precision uniform draws
    if a and np.isfinite(b) and abs(p) * np.log10(b / a) > 4:
        b = a * 10 ** (4 / abs(p))
    fa, fb = (a**p if a else 0.0), (0.0 if np.isinf(b) else b**p)
    ints = a == 0 and ctx.choice([True, False])
    if ints:
        b = max(1, round(b))
        fb = float(b) ** p
    d = D.PowerLaw(0 if ints else a, b, al)
    return (k, d, a, b, lambda x: p * x**al / (fb - fa),
            lambda x: (x**p - fa) / (fb - fa))


SHAPES = [(40000,), (200, 200), (40, 1000), (1000, 40), (20, 50, 40)]


def shapes(ctx, d, name):
    for shape in [(), (1,), (7,), (3, 4), torch.Size([2, 1, 3])]:
        for f in ("sample", "rsample"):
            x = ctx.call(getattr(d, f), shape)
            ctx.check(tuple(x.shape) == tuple(shape), "shape",
                      f"{name}.{f}({tuple(shape)}) has shape "
                      f"{tuple(x.shape)}")
    x = ctx.call(d.sample)
    ctx.check(tuple(x.shape) == (), "shape", f"sample() is {tuple(x.shape)}")


def rounded_log(ctx, name, a, b):
    """how much coarser single precision is after taking the logarithm (or a
    high root)"""
    if name == "power":
        return max(1.0, 0.3 / abs(ctx.root))
    if name != "log-uniform":
        return 1.0
    return max(1.0, abs(np.log(a)) / 8, abs(np.log(b)) / 8)


def inside(ctx, x, a, b, name):
    ctx.event("draws", x.size)
    ctx.check(np.isfinite(x).all(), "not-finite", f"{name} drew "
              f"{x[~np.isfinite(x)][:1]}")
    e = 3e-6 * rounded_log(ctx, name, a, b)
    span = (b - a) if np.isfinite(b) else 0
    lo, hi = a - e * max(abs(a), span), b + e * max(abs(b), span)
    if name in ("sine", "cosine"):  # the arcsine is steep at its ends
        lo, hi = a - 5e-4, b + 5e-4
    ctx.check((x >= lo).all(), "below", f"{name}: {x.min()} < {a}")
    ctx.check((x <= hi).all(), "above", f"{name}: {x.max()} > {b}")


def fit(ctx, x, cdf, name):
    ctx.event("fits")
    v = cdf(x.astype(float))
    p = ks_p(v, stats.uniform.cdf)
    ctx.maximum("-log10 p", -np.log10(max(p, 1e-300)))
    ctx.check(p > P_FALSE, "distribution", f"{name}: KS p = {p:.2e}")
    # both ends, where a Kolmogorov distance is blind
    k = 40
    h = np.histogram(np.clip(v, 0, 1), k, (0, 1))[0]
    p = chi2_p(h)
    ctx.check(p > P_FALSE, "distribution", f"{name}: chi2 p = {p:.2e} "
              f"(counts {h.min()}..{h.max()})")
    for side, w in (("lower", v), ("upper", 1 - v)):
        h = np.histogram(w, [-1, 5e-4, 2e-3, 6e-3])[0]
        e = np.diff([0, 5e-4, 2e-3, 6e-3]) * len(v)
        p = min(min(stats.poisson.cdf(h, e).min(),
                    stats.poisson.sf(h - 1, e).min()), 1)
        ctx.check(p > P_FALSE, "distribution",
                  f"{name}: {h} draws in the {side} tail, expected {e}")
    # draws are independent at every distance from one another
    f = abs(np.fft.rfft(v - v.mean(), 2 * len(v))) ** 2
    c = np.fft.irfft(f)[:len(v) - 100]
    c = c[1:] / c[0] * len(v) / np.sqrt(len(v) - np.arange(1, len(c)))
    ctx.maximum("correlation sigma", abs(c).max())
    ctx.check(abs(c).max() < 8, "independence", f"{name}: draws "
              f"{abs(c).argmax() + 1} apart correlate ({abs(c).max():.1f} "
              "sigma)")


def outside(ctx, d, x, name):
    """minus infinity, or refused"""
    ctx.event("densities")
    try:
        lp = d.log_prob(torch.tensor(x))
    except ValueError:
        ctx.event("refused_outside")
        return
    ctx.check((lp == -np.inf).all(), "outside",
              f"{name}: log density {lp} at {x}, outside the support")


@family("P18", quick=64, thorough=8000, priority=1)
def closed_form_priors(ctx):
    k, d, a, b, pdf, cdf = uniforms(ctx)
    ctx.params(k=k, a=a, b=b, d=d)
    ctx.state(k, round(np.log10(abs(a) + 1e-9)), np.isinf(b))
    shapes(ctx, d, k)
    x = to_np(ctx.call(d.sample, ctx.choice(SHAPES))).reshape(-1)
    inside(ctx, x, a, b, k)
    fit(ctx, x, cdf, k)
    # pointwise log density, on the draws themselves and on a grid
    hi = b if np.isfinite(b) else float(np.quantile(x, 0.999))
    lo = a if a > 0 or k in ("sine", "cosine") else hi * 1e-3
    lo = max(lo, a + 1e-4 * (hi - a))
    g = np.concatenate([np.linspace(lo, a + 0.9999 * (hi - a), 40),
                        x[(x > lo) & (x < a + 0.9999 * (hi - a))][:10]])
    g32 = g.astype(np.float32)
    lp = to_np(ctx.call(d.log_prob, torch.tensor(g32)))
    with np.errstate(all="ignore"):
        want = np.log(pdf(g32.astype(float)))
    ctx.event("densities", g.size)
    ctx.need(lp.shape == g32.shape, "density-shape", str(lp.shape))
    # cos(x) near the ends of the range is itself rounded
    tol = 2e-3 + 1e-6 / np.maximum(np.exp(want) * (hi - a), 1e-6)
    deep = (want < -80) & (lp < -79)
    ctx.close(np.where(deep, 0, lp), np.where(deep, 0, want), "density",
              rtol=1.0, scale=tol, msg=k)
    # a grid fine enough to integrate the reported density itself
    lo_i = a if a > 0 or k in ("sine", "cosine") else hi * 1e-6
    t = np.geomspace(lo_i, hi, 4001) if lo_i > 0 and k not in (
        "sine", "cosine") else np.linspace(lo_i, hi, 4001)
    e = 1e-6 * rounded_log(ctx, k, lo_i, hi)
    t = np.clip(t, lo_i * (1 + e) if lo_i > 0 else lo_i + e,
                hi * (1 - e) if hi > 0 else hi - e)
    lp = to_np(ctx.call(d.log_prob, torch.tensor(t))).astype(float)
    I = integrate.simpson(np.exp(lp), x=t)  # noqa: E741
    want = cdf(hi) - (cdf(lo_i) if lo_i > a else 0)
    ctx.check(abs(I - want) < 5e-3, "integral",
              f"{k}: the density integrates to {I:.5f}, not {want:.5f}")
    if np.isfinite(b):
        outside(ctx, d, [b + max(1e-3 * abs(b), 1e-3), b + (b - a) + 1], k)
    out = a - max(1e-3 * abs(a), 1e-3)
    outside(ctx, d, [out, out - 1], k)
    if a > 0:
        outside(ctx, d, [a * 0.99, a / 2] if k not in ("sine", "cosine")
                else [a - 0.01], k)


@family("P18", quick=8, thorough=80)
def refuses_and_degenerate(ctx):
    p = float(ctx.uniform(-5, 5)) * ctx.choice([1, 100])
    d = D.DeltaFunction(ctx.choice([p, torch.tensor(p)]))
    ctx.params(p=p)
    ctx.state("delta")
    shapes(ctx, d, "delta")
    x = ctx.call(d.sample, (1000,))
    ctx.event("draws", 1000)
    ctx.check((x == torch.tensor(p).float()).all(), "delta", f"{x[:3]}")
    ctx.check((D.DeltaFunction().sample((5,)) == 0).all(), "delta-default")
    ctx.raises(ValueError, "power-zero", D.PowerLaw, 1.0, 2.0, 0)
    ctx.raises(ValueError, "distance-type", D.UniformComovingVolume, 0, 1,
               "angular")
    ctx.raises(ValueError, "beyond-grid", D.UniformComovingVolume, 0, 5.5)
    ctx.raises(ValueError, "beyond-grid", D.UniformComovingVolume, 0, 2,
               z_grid_max=1.9)
    ctx.raises(ValueError, "beyond-grid", D.UniformComovingVolume, 100, 1e5,
               "luminosity_distance")


RATES = {
    "constant": lambda z: 1 + 0 * z,
    "source-frame": lambda z: 1 / (1 + z),
    "madau": lambda z: (1 + z) ** 2.7 / (1 + ((1 + z) / 2.9) ** 5.6),
    "growing": lambda z: (1 + z) ** 1.7,
    "step": lambda z: 0.2 + 0.8 / (1 + 2.718281828 ** (-(z - 0.4) * 5)),
}


def cosmology(ctx):
    t = ctx.cycle(["redshift", "comoving_distance", "luminosity_distance"])
    rate = ctx.choice([None, None, *RATES])
    if ctx.choice([True, False]):
        h0, om = D._PLANCK18_H0, D._PLANCK18_OMEGA_M
        kw = {}
    else:
        h0, om = float(ctx.uniform(50, 90)), float(ctx.uniform(0.1, 0.6))
        kw = dict(h0=h0, omega_m=om)
    zg = ctx.choice([5, 5, 3.0, 10])
    if zg != 5:
        kw["z_grid_max"] = zg
    if ctx.choice([False, False, True]):
        kw["grid_size"] = ctx.choice([6000, 8000, 20000, 30001])
    c = FlatLambdaCDM(H0=h0 * u.km / u.s / u.Mpc, Om0=om, Tcmb0=0)
    dist = {"redshift": lambda z: np.asarray(z, float),
            "comoving_distance": lambda z: c.comoving_distance(z).value,
            "luminosity_distance":
                lambda z: c.luminosity_distance(z).value}[t]
    reg = ctx.choice(["wide", "wide", "zero", "narrow", "near", "whole"])
    z1, z2 = np.sort(ctx.uniform(0.01, 0.97 * zg, 2))
    if reg == "zero":
        z1 = 0.0
    elif reg == "narrow":
        z1 = 0.3 + 1.2 * z1 / zg
        z2 = z1 + float(ctx.loguniform(1e-3, 3e-2))
    elif reg == "near":  # the grid itself has a finite step
        z1, z2 = 0.0, float(ctx.loguniform(5e-2, 2e-1))
    elif reg == "whole":
        z1, z2 = 0.0, 0.97 * zg
    elif z2 - z1 < 0.2:
        z1, z2 = min(z1, 0.9 * zg), min(z1, 0.9 * zg) + 0.2
    if t == "redshift" and reg == "whole":
        z2 = float(zg)
    a, b = float(dist(z1)), float(dist(z2))
    cls = D.UniformComovingVolume
    args = [a, b, t]
    rf = RATES[rate] if rate else (lambda z: 1 + 0 * z)
    if rate:
        cls, args = D.RateEvolution, [RATES[rate], a, b, t]
    if t == "redshift" and ctx.choice([True, False]):
        args = args[:-1]
    return t, rate, reg, kw, cls, args, c, rf, z1, z2, a, b, dist


@family("P18", quick=48, thorough=5000, priority=1)
def cosmological_priors(ctx):
    (t, rate, reg, kw, cls, args, c, rf, z1, z2, a, b, dist) = cosmology(ctx)
    ctx.params(t=t, rate=rate, reg=reg, z1=z1, z2=z2, a=a, b=b, **kw)
    ctx.state(t, rate, reg, bool(kw))
    d = ctx.call(cls, *args, **kw)
    shapes(ctx, d, t)
    x = to_np(ctx.call(d.sample, ctx.choice(SHAPES))).reshape(-1)
    inside(ctx, x, a, b, t)
    # independent density, by quadrature in redshift
    z = np.linspace(z1, z2, 20001)
    dc = c.comoving_distance(z).value
    w = dc**2 * c.inv_efunc(z) * rf(z)
    F = integrate.cumulative_simpson(w, x=z, initial=0)
    total = F[-1]
    F = F / total
    r = dist(z)
    fit(ctx, x, lambda q: np.interp(q, r, F), t)
    # pointwise: p(r) = w(z) / total / (dr / dz)
    h = 2.99792458e5 / c.H0.value * c.inv_efunc(z)
    j = {"redshift": 1 + 0 * z, "comoving_distance": h,
         "luminosity_distance": dc + (1 + z) * h}[t]
    p = w / total / j
    i = np.arange(100, 20001, 199)
    q = r[i].astype(np.float32)
    lp = to_np(ctx.call(d.log_prob, torch.tensor(q))).astype(float)
    ctx.event("densities", i.size)
    cell = 5.5 * kw.get("z_grid_max", 5) / 5 / kw.get("grid_size", 10000)
    tol = 3e-3 + 2 * (cell / np.maximum(z[i], cell)) ** 2 \
        + 0.3 * cell / (z2 - z1) * (z2 - z1 < 20 * cell)
    ok = z[i] > 2 * cell
    ctx.close(lp[ok], np.log(p[i])[ok], "density", rtol=1.0, scale=tol[ok],
              msg=t)
    ctx.check(np.isfinite(lp).all(), "density:not-finite",
              f"{t}: log density {lp[~np.isfinite(lp)][:2]} inside")
    lx = to_np(ctx.call(d.log_prob, torch.tensor(x)))
    bad = np.isnan(lx)
    ctx.check(not bad.any(), "density:not-finite",
              f"{t}: {bad.sum()} draws have no log density (e.g. {x[bad][:2]})")
    # the bounds themselves are inside
    lb = to_np(ctx.call(d.log_prob, torch.tensor([a, b] if a > 0 else [b])))
    ctx.check(np.isfinite(lb).all(), "density:bounds",
              f"{t}: log density {lb} at the bounds {a}, {b}")
    g = np.linspace(a, b, 6001)
    lp = to_np(ctx.call(d.log_prob, torch.tensor(g).float())).astype(float)
    keep = ~np.isinf(lp)
    I = integrate.trapezoid(np.exp(lp[keep]), x=g[keep])  # noqa: E741
    ctx.check(abs(I - 1) < 5e-3, "integral", f"{t}: density integrates to {I}")
    e = max(1e-3 * (b - a), 1e-6 * b)
    outside(ctx, d, [b + e, b + (b - a)], t)
    if a > 0:
        outside(ctx, d, [a - e, a / 2], t)
    # the grids behind it
    zz = to_np(d.z_grid).astype(float)
    ctx.close(d.comoving_dist_grid, c.comoving_distance(zz).value,
              "comoving-distance", rtol=2e-4, atol=0.02)
    ctx.close(d.luminosity_dist_grid, c.luminosity_distance(zz).value,
              "luminosity-distance", rtol=2e-4, atol=0.02)


@family("P18", quick=12, thorough=120)
def streams(ctx):
    """seeding reproduces; two draws differ; a sampler keeps its definition
    after use"""
    k, d, a, b, pdf, cdf = uniforms(ctx)
    s = ctx.randint(0, 2**31)
    ctx.params(k=k, a=a, b=b)
    ctx.state(k)
    torch.manual_seed(s)
    x = ctx.call(d.sample, (500,))
    y = ctx.call(d.sample, (500,))
    torch.manual_seed(s)
    ctx.equal(ctx.call(d.sample, (500,)), x, "reproducible")
    ctx.check(not torch.equal(x, y), "fresh-draws")
    ctx.event("draws", 1500)
    ctx.check(len(torch.unique(x)) > 450, "repeats", f"{k} repeats values")
    before = to_np(ctx.call(d.log_prob, x[:20]))
    d.sample((1000,))
    ctx.equal(ctx.call(d.log_prob, x[:20]), before, "changed-by-use")
