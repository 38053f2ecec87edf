"""P13: TaylorF2, IMRPhenomD and IMRPhenomPv2 against LALSimulation."""

import numpy as np
import torch

from ml4gw.waveforms import IMRPhenomD, IMRPhenomPv2, TaylorF2
from vlib.core import family, to_np
from vlib.lalref import MTSUN, components, fd_sequence

TECHNIQUE = ("runtime monitor: every returned polarization sample compared "
             "in amplitude and phase with LALSimulation at the same "
             "frequency")
NOTE = ("Polarizations over random masses, spins, angles, reference "
        "frequencies and (uniform, log, random) frequency grids are compared "
        "with LALSimulation sample by sample: absolute amplitude, absolute "
        "phase, time shift and residual phase are bounded separately. The "
        "bounds for the Phenom models allow the different interpolation of "
        "the tabulated ringdown frequencies; float32 runs are compared with "
        "float64 ones within the rounding of the phase.")
RULE = "seeded random parameters; distinct by model, mass, ratio, spin class"
ASSUMPTIONS = ["LALSimulation's TaylorF2, IMRPhenomD, IMRPhenomPv2 are the "
               "reference", "|spin| <= 0.99; 1/200 <= q <= 1 "
               "(IMRPhenomPv2: from 1/95)"]
REQUIRED = {"large": 10, "square": 10, "lal_samples_compared": 20000, "lal_waveforms": 60,
            "float32_samples_compared": 5000, "amplitude_checked": 20000,
            **{f"changed_{k}": 5 for k in ("q", "s", "d", "inc", "phic",
                                           "fref", "f", "mc")}}

MODELS = {"TaylorF2": TaylorF2, "IMRPhenomD": IMRPhenomD,
          "IMRPhenomPv2": IMRPhenomPv2}


def spins(ctx, name, B):
    k = ctx.choice(["any", "any", "any", "zero", "equal", "one", "high",
                    "aligned", "inplane"])
    s = np.zeros((2, B, 3))
    if name == "IMRPhenomPv2" and k not in ("zero", "aligned"):
        v = ctx.rng.standard_normal((2, B, 3))
        if k == "inplane":
            v[..., 2] = 0
        v /= np.linalg.norm(v, axis=-1, keepdims=True)
        mag = ctx.uniform(0.9, 0.99, (2, B, 1)) if k == "high" else (
            ctx.uniform(0, 0.95, (2, B, 1)))
        s = v * mag
        if k == "one":
            s[ctx.randint(0, 1)] = 0
        if k == "equal":
            s[1] = s[0]
    elif k != "zero":
        hi = 0.99 if k == "high" else 0.95
        s[..., 2] = ctx.uniform(-hi, hi, (2, B))
        if k == "high":
            s[..., 2] = np.sign(s[..., 2]) * ctx.uniform(0.9, 0.99, (2, B))
        if k == "one":
            s[ctx.randint(0, 1)] = 0
        if k == "equal":
            s[1] = s[0]
    return k, s


def systems(ctx, name, B):
    mc = ctx.loguniform(0.9, 80, B)
    kinds = ["any", "any", "any", "equal", "small", "near1"]
    qk = ctx.choice(kinds + ["tiny"])
    q = {"any": lambda: ctx.uniform(0.06, 1, B),
         "tiny": lambda: ctx.loguniform(
             0.0105 if name == "IMRPhenomPv2" else 0.005, 0.056, B),
         "equal": lambda: np.ones(B),
         "small": lambda: ctx.uniform(0.056, 0.12, B),
         "near1": lambda: 1 - ctx.loguniform(1e-6, 1e-2, B)}[qk]()
    sk, s = spins(ctx, name, B)
    d = ctx.loguniform(*ctx.choice([(10, 5000), (10, 5000), (1e-3, 1e6)]), B)
    ik = ctx.choice(["any", "any", "any", "face", "edge", "back", "beyond"])
    inc = {"any": lambda: ctx.uniform(0, np.pi, B),
           "face": lambda: np.zeros(B), "back": lambda: np.full(B, np.pi),
           "beyond": lambda: ctx.uniform(-7, 7, B),
           "edge": lambda: np.full(B, np.pi / 2)}[ik]()
    phic = ctx.uniform(*ctx.choice([(0, 6.3), (0, 6.3), (-20, 20)]), B)
    return dict(mc=mc, q=q, s=s, d=d, inc=inc, phic=phic, sk=sk, qk=qk, ik=ik)


def draw(ctx, name):
    B = ctx.choice([1, 1, 2, 3])
    n = ctx.choice([257, 400, 1024])
    if ctx.slot(20) == 11:  # many systems of all sorts in one batch
        B = ctx.choice([8, 16, 17, 32, 33, 64, 65, 129])
        n = ctx.randint(12, 40)
        each = [systems(ctx, name, 1) for _ in range(B)]
        p = {k: np.concatenate([e[k] for e in each], int(k == "s"))
             for k in ("mc", "q", "s", "d", "inc", "phic")}
        p.update(sk="mixed", qk="mixed", ik="mixed")
        ctx.event("large")
    else:
        if ctx.slot(20) == 17:  # many frequencies
            n = ctx.choice([4096, 8193, 16385, ctx.randint(1025, 40000)])
            B = 1
            ctx.event("large")
        elif ctx.slot(20) == 3:  # as many systems as frequencies
            B = n = ctx.choice([12, 16, 25])
            ctx.event("square")
        p = systems(ctx, name, B)
    mc, q = p["mc"], p["q"]
    fref = float(ctx.choice([20.0, 50.0, 30.0, 15.0, 100.0,
                             ctx.uniform(10, 200)]))
    fmin = ctx.uniform(8, 30)
    Mmax = max(sum(components(mc[i], q[i])) for i in range(B)) * MTSUN
    fmax = min(2048.0, 0.199 / Mmax)
    if name == "TaylorF2":
        fmax = ctx.choice([fmax, 1024.0])
    fmax = max(fmax, fmin + 20)
    gk = ctx.choice(["uniform", "log", "random"])
    if gk == "uniform":
        f = np.linspace(fmin, fmax, n)
    elif gk == "log":
        f = np.geomspace(fmin, fmax, n)
    else:
        f = np.sort(ctx.uniform(fmin, fmax, n))
    return dict(B=B, fref=fref, f=f, gk=gk, **p)


def evaluate(ctx, name, p, dtype=torch.float64):
    t = lambda a: torch.tensor(np.asarray(a), dtype=dtype)  # noqa: E731
    mods = getattr(ctx, "models", {})  # one for all calls, or one for each
    m = mods.get((name, dtype)) or MODELS[name]()
    mods[name, dtype] = m.to(dtype) if dtype == torch.float64 else m
    if name == "IMRPhenomPv2":
        sp = [t(p["s"][b, :, k]) for b in range(2) for k in range(3)]
    else:
        sp = [t(p["s"][0, :, 2]), t(p["s"][1, :, 2])]
    args = [t(p["f"]), t(p["mc"]), t(p["q"]), *sp, t(p["d"]), t(p["phic"]),
            t(p["inc"]), p["fref"]]
    hc, hp = ctx.call(m, *args)
    cd = torch.complex128 if dtype == torch.float64 else torch.complex64
    for h in (hc, hp):
        ctx.need(tuple(h.shape) == (p["B"], len(p["f"])), "shape",
                 f"got {tuple(h.shape)}")
        ctx.check(h.dtype == cd, "dtype", f"got {h.dtype}")
    return to_np(hp).astype(complex), to_np(hc).astype(complex)


# amp: relative; amplo: same below Mf = 0.017 (no ringdown data enters);
# c0: constant phase; dt: time shift (s) relative to the total mass;
# res: phase left after removing the linear part; lo: ditto polarization mix
TOL = {
    "TaylorF2": dict(amp=1e-9, amplo=1e-9, c0=2e-5, dt=2e-8, res=2e-5,
                     raw=5e-5),
    "IMRPhenomD": dict(amp=5e-3, amplo=1e-5, c0=5e-3, dt=1e-5, res=5e-3,
                       raw=2e-2),
    "IMRPhenomPv2": dict(amp=5e-3, amplo=1e-5, c0=5e-3, dt=3e-4, res=5e-3,
                         raw=None),
}


def compare(ctx, name, p, hp, hc):
    for i in range(p["B"]):
        tol = dict(TOL[name])
        if name != "TaylorF2" and abs(p["s"][:, i]).max() > 0.8:
            # the ringdown table is steep for nearly extremal remnants
            tol = {k: None if v is None else 8 * v for k, v in tol.items()}
        if name == "TaylorF2":  # the phase grows with the mass ratio
            scale = max(1, 0.0475 / (p["q"][i] / (1 + p["q"][i]) ** 2))
            tol = {k: v if k == "amp" else v * scale for k, v in tol.items()}
        m1, m2 = components(p["mc"][i], p["q"][i])
        M = (m1 + m2) * MTSUN
        P, C = fd_sequence(name, p["f"], m1, m2, p["s"][0, i], p["s"][1, i],
                           p["d"][i], p["inc"][i], p["phic"][i], p["fref"])
        k = np.abs(P) + np.abs(C) > 0
        if name != "TaylorF2":
            k &= M * p["f"] < 0.1999
        if k.sum() < 10:
            ctx.event("reference_too_short")
            continue
        f, P, C, a, b = p["f"][k], P[k], C[k], hp[i][k], hc[i][k]
        ctx.event("lal_waveforms")
        ctx.event("lal_samples_compared", 2 * k.sum())
        who = dict(model=name, mc=p["mc"][i], q=p["q"][i],
                   s=p["s"][:, i].round(4).tolist(), inc=p["inc"][i],
                   fref=p["fref"], phic=p["phic"][i], d=p["d"][i])
        if not ctx.check(np.isfinite(a).all() and np.isfinite(b).all(),
                         f"{name}:finite", "non-finite samples", **who):
            continue
        tot = np.sqrt(abs(P) ** 2 + abs(C) ** 2)
        amp = np.abs(np.sqrt(abs(a) ** 2 + abs(b) ** 2) / tot - 1)
        lo = M * f < 0.017
        ctx.event("amplitude_checked", k.sum())
        ctx.maximum(f"{name}_amp", amp.max())
        ctx.check(amp.max() < tol["amp"], f"{name}:amplitude",
                  f"relative amplitude error {amp.max():.3e} at f="
                  f"{f[amp.argmax()]:.2f} Hz", **who)
        if lo.any():
            ctx.maximum(f"{name}_amplo", amp[lo].max())
            ctx.check(amp[lo].max() < tol["amplo"],
                      f"{name}:inspiral-amplitude",
                      f"relative amplitude error {amp[lo].max():.3e}", **who)
        r = (a * P.conj() + b * C.conj()) / tot**2
        dphi = np.angle(r)
        A = np.stack([np.ones_like(f), f], 1)
        co = np.linalg.lstsq(A, dphi, rcond=None)[0]
        fit = A @ co
        res = np.sqrt(abs(a * np.exp(-1j * fit) - P) ** 2
                      + abs(b * np.exp(-1j * fit) - C) ** 2) / tot
        raw = np.sqrt(abs(a - P) ** 2 + abs(b - C) ** 2) / tot
        dt = abs(co[1]) / 2 / np.pi / (M / (60 * MTSUN))
        for nm, v in (("c0", abs(co[0])), ("dt", dt), ("res", res.max()),
                      ("raw", raw.max())):
            ctx.maximum(f"{name}_{nm}", v)
            if tol[nm] is None:
                continue
            ctx.check(v < tol[nm], f"{name}:{nm}",
                      f"{nm} = {v:.3e} (bound {tol[nm]:g}), amplitude error "
                      f"{amp.max():.2e}", **who)


@family("P13", quick=300, thorough=12000)
def against_lal(ctx):
    name = ctx.cycle(list(MODELS))
    p = draw(ctx, name)
    ctx.params(model=name, **{k: v for k, v in p.items() if k != "f"})
    ctx.state(name, p["sk"], p["qk"], p["ik"], p["gk"],
              int(np.log2(p["mc"][0])))
    hp, hc = evaluate(ctx, name, p)
    compare(ctx, name, p, hp, hc)


@family("P13", quick=60, thorough=2400)
def one_parameter_changed(ctx):
    """the same model again, with all but one of the parameters as before"""
    name = ctx.cycle(list(MODELS))
    p = draw(ctx, name)
    ctx.params(model=name, **{k: v for k, v in p.items() if k != "f"})
    ctx.models = {}
    compare(ctx, name, p, *evaluate(ctx, name, p))
    other = systems(ctx, name, p["B"])
    for key in ctx.rng.permutation(["q", "s", "d", "inc", "phic", "fref",
                                    "f", "mc"])[:3]:
        new = dict(p)
        if key == "fref":
            new["fref"] = float(p["fref"] * ctx.uniform(0.6, 1.8))
        elif key == "f":
            k = ctx.randint(1, len(p["f"]) - 2)
            new["f"] = np.append(p["f"][:k], np.sort(ctx.uniform(
                p["f"][k], p["f"][-1], len(p["f"]) - k)))
        elif key == "mc":  # no heavier, so that the grid still ends in band
            new["mc"] = p["mc"] * ctx.uniform(0.7, 1, p["B"])
        elif key == "q":
            new["q"] = np.clip(p["q"] * ctx.uniform(1, 2, p["B"]), None, 1)
        else:
            new[key] = other[key]
        compare(ctx, name, new, *evaluate(ctx, name, new))
        ctx.event(f"changed_{key}")
        ctx.state(name, "changed", key, p["sk"])


@family("P13", quick=100, thorough=3000)
def float32_within_rounding(ctx):
    """single precision equals double up to the rounding of the phase"""
    name = ctx.cycle(list(MODELS))
    p = draw(ctx, name)
    for k in ("mc", "q", "d", "inc", "phic", "f"):
        p[k] = p[k].astype(np.float32).astype(np.float64)
    # below this mass ratio single precision loses the amplitude as well
    p["q"] = np.clip(p["q"], np.float64(np.float32(0.056)), 1.0)
    p["s"] = p["s"].astype(np.float32).astype(np.float64)
    p["fref"] = float(np.float32(p["fref"]))
    ctx.params(model=name, **{k: v for k, v in p.items() if k != "f"})
    ctx.state(name, "f32", p["sk"], p["qk"])
    hp, hc = evaluate(ctx, name, p)
    hp4, hc4 = evaluate(ctx, name, p, torch.float32)
    for i in range(p["B"]):
        f, P, C, a, b = p["f"], hp[i], hc[i], hp4[i], hc4[i]
        m1, m2 = components(p["mc"][i], p["q"][i])
        M = (m1 + m2) * MTSUN
        eta = m1 * m2 / (m1 + m2) ** 2
        ph = 3 / 128 / eta * (np.pi * M * min(f[0], p["fref"])) ** (-5 / 3)
        tot = np.sqrt(abs(P) ** 2 + abs(C) ** 2)
        amp = np.abs(np.sqrt(abs(a) ** 2 + abs(b) ** 2) / tot - 1)
        ctx.event("float32_samples_compared", 2 * f.size)
        ctx.maximum(f"{name}_f32_amp", amp.max())
        ctx.check(amp.max() < 5e-3, f"{name}:float32-amplitude",
                  f"relative amplitude difference {amp.max():.3e}")
        dphi = np.unwrap(np.angle(a * P.conj() + b * C.conj()))
        A = np.stack([np.ones_like(f), f], 1)
        co = np.linalg.lstsq(A, dphi, rcond=None)[0]
        e = abs(a - P * np.exp(1j * A @ co)) ** 2
        e = np.sqrt(e + abs(b - C * np.exp(1j * A @ co)) ** 2) / tot
        # rounding of a phase of ph + O(1/eta) radians, and of its slope
        unit = 6e-8 * (ph + 100 / eta + 100)
        # float32 slopes of the phase cancel: allow a small time shift
        dt = 1e-4 * M / (60 * MTSUN) / (4 * eta)
        # and a narrow band fixes the slope less well
        slope = dt / 30 + unit / (f[-1] - f[0]) / 20
        for nm, v, u in (("res", e.max(), unit),
                         ("dt", abs(co[1]) / 2 / np.pi, slope),
                         ("c0", abs(co[0]), unit + 2 * np.pi * max(
                             p["fref"], f[0]) * slope)):
            ctx.maximum(f"{name}_f32_{nm}", v / u)
            ctx.check(v < 200 * u, f"{name}:float32-{nm}",
                      f"{nm} {v:.3e}, rounding unit {u:.2e}")
