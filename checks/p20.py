"""P20: spline interpolation reproduces its data, whatever was asked before."""

import copy
import math

import numpy as np
import torch
from scipy.interpolate import (
    BSpline,
    InterpolatedUnivariateSpline,
    RectBivariateSpline,
)

from ml4gw.transforms import SplineInterpolate1D, SplineInterpolate2D
from vlib.core import family

TECHNIQUE = ("output monitors on spline calls and call histories against "
             "FITPACK, exact polynomials and the data themselves")
NOTE = ("scipy's FITPACK splines in double precision are the reference; "
        "tolerances follow the measured condition number of the single "
        "precision solve.")
RULE = ("seeded random degrees, even and uneven grids, output grids, ranks "
        "and call sequences; distinct by those classes")
ASSUMPTIONS = [
    "grids whose basis matrix has a condition number under 60",
    "coordinates span at least a hundredth of their offset from zero",
]
REQUIRED = {"large": 15, "splines_checked": 300, "polynomials": 60, "history_calls": 200,
            "outside_points": 60, "refusals": 60, "ranks_checked": 60}
E32 = float(np.finfo(np.float32).eps)


def f32(x):
    return np.asarray(x, dtype=np.float32).astype(np.float64)


def fitpack_knots(x, k):
    h = (k + 1) // 2
    if k % 2:
        inner = x[h:-h]
    else:
        m = (x[1:] + x[:-1]) / 2
        inner = m[h:-h]
    return np.r_[[x[0]] * (k + 1), inner, [x[-1]] * (k + 1)]


def grid(ctx, k, nmax=60):
    """(increasing coordinates, condition number of the interpolation)"""
    while True:
        n = ctx.choice([k + 2, k + 3, ctx.randint(k + 2, nmax)])
        kind = ctx.choice(["unit", "even", "uneven", "uneven", "offset"])
        if nmax > 25 and ctx.slot(30) == 11:
            kind = ctx.choice(["unit", "even"])
            n = ctx.choice([64, 65, 128, 129, 200, 257, 400])
            ctx.event("large")
        d = np.ones(n - 1)
        if kind == "uneven":
            d = np.exp(ctx.uniform(0, 0.7) * ctx.rng.standard_normal(n - 1))
        x = np.r_[0, np.cumsum(d)]
        if kind != "unit":
            x = x * ctx.loguniform(1e-2, 1e2)
        if kind == "offset":
            x = x + ctx.uniform(-20, 20) * x[-1]
        x = f32(x)
        if np.any(np.diff(x) <= 0):
            continue
        t = fitpack_knots(x, k)
        c = np.linalg.cond(BSpline.design_matrix(x, t, k).toarray())
        if c < 60:
            # rounding of knots and coordinates relative to their spacing
            c2 = c**2 + c * np.abs(x).max() / np.diff(x).min() / 10
            return kind, x, c2


def outputs(ctx, x, nmax=50):
    m = ctx.choice([1, 2, ctx.randint(1, nmax)])
    if ctx.slot(30) == 19:
        m = ctx.choice([128, 129, 500, 1024, 3000])
        ctx.event("large")
    lo, hi = x[0], x[-1]
    kind = ctx.choice(["inside", "inside", "beyond", "data", "unsorted"])
    if kind == "data":
        return kind, x.copy()
    w = hi - lo
    if kind == "beyond":
        o = np.sort(ctx.uniform(lo - 0.5 * w, hi + 0.5 * w, m))
    else:
        o = ctx.uniform(lo, hi, m)
        if kind == "inside":
            o = np.sort(o)
    if ctx.rng.random() < 0.2:
        o[0] = lo
        o[-1] = hi
    return kind, f32(o)


def tensor(x, dtype=torch.float32):
    return torch.tensor(x, dtype=dtype)


def ref1d(x, y, k, xo):
    """FITPACK along the last axis"""
    xo = np.clip(xo, x[0], x[-1])
    flat = y.reshape(-1, y.shape[-1])
    order = np.argsort(xo, kind="stable")
    back = np.argsort(order, kind="stable")
    out = np.stack([InterpolatedUnivariateSpline(x, v, k=k)(xo[order])[back]
                    for v in flat])
    return out.reshape(*y.shape[:-1], len(xo))


def ref2d(x, y, z, kx, ky, xo, yo):
    g = ref1d(x, z, kx, xo)
    return ref1d(y, g.swapaxes(-1, -2), ky, yo).swapaxes(-1, -2)


def rank4(z):
    return z.reshape((1,) * (4 - z.ndim) + z.shape)


def data(ctx, *shape):
    z = ctx.rng.standard_normal(shape)
    kind = ctx.choice(["noise", "smooth", "offset", "spike"])
    if kind == "smooth":
        z = np.cumsum(z, -1)
    if kind == "offset":
        z = z + 10
    if kind == "spike":
        z = np.zeros(shape)
        z[..., ctx.randint(0, shape[-1] - 1)] = 1
    return f32(z * ctx.choice([1.0, 1e-3, 1e4]))


# ---------------------------------------------------------------- 1-D

@family("P20", quick=250, thorough=6000, priority=1)
def against_fitpack_1d(ctx):
    k = ctx.cycle([1, 2, 3, 4, 5, 3])
    kind, x, c2 = grid(ctx, k)
    okind, xo = outputs(ctx, x)
    lead = ctx.cycle([(), (1,), (3,), (2, 2), (1, 3), (2, 1, 3), (1, 1, 1),
                      (2, 3, 2)], 6)
    if ctx.slot(20) == 13:
        ctx.event("large")
        lead = ctx.choice([(17,), (65, 2), (3, 33), (9, 9, 2), (2, 3, 17),
                           (129, 1, 1), (260,), (1, 1, 70)])
    where = ctx.choice(["init", "call", "both"])
    dtype = ctx.choice([torch.float32, torch.float32, torch.float64])
    y = data(ctx, *lead, len(x))
    ctx.params(k=k, n=len(x), grid=kind, out=okind, m=len(xo), lead=lead,
               where=where, dtype=str(dtype), cond2=c2)
    kw = {} if k == 3 and ctx.rng.random() < 0.5 else {"kx": k}
    xin, xout = tensor(x), tensor(xo)
    keep = (xin.clone(), xout.clone())
    if where == "init":
        sp = ctx.call(SplineInterpolate1D, xin, x_out=xout, **kw)
    elif where == "call":
        sp = ctx.call(SplineInterpolate1D, xin, **kw)
    else:
        other = tensor(f32(ctx.uniform(x[0], x[-1], ctx.randint(1, 9))))
        sp = ctx.call(SplineInterpolate1D, xin, x_out=other, **kw)
    Z = tensor(y, dtype)
    if dtype == torch.float64:
        sp = sp.double()
    Zc = Z.clone()
    out = ctx.call(sp, Z, *(() if where == "init" else (xout,)))
    ctx.check(torch.equal(Z, Zc) and torch.equal(xin, keep[0]) and
              torch.equal(xout, keep[1]), "input_altered", "inputs altered")
    ctx.need(tuple(out.shape) == (*rank4(y).shape[:-1], len(xo)), "shape",
             f"{tuple(out.shape)} for data {y.shape}, {len(xo)} outputs")
    want = ref1d(x, rank4(y), k, xo)
    tol = 6 * E32 * c2
    ctx.close(out, want, "interpolated", f"degree {k}", rtol=tol,
              atol=tol * np.abs(y).max(), scale="max", dtype=dtype)
    ctx.maximum("err1d", float(np.abs(out.double().numpy() - want).max() /
                               (2 * tol * max(np.abs(y).max(), 1e-300))))
    beyond = (xo < x[0]) | (xo > x[-1])
    if beyond.any():
        ends = np.where(xo[beyond] < x[0], rank4(y)[..., :1], rank4(y)[..., -1:])
        ctx.close(out[..., torch.tensor(beyond)], ends, "outside",
                  "values outside the data range are the end values",
                  rtol=tol, atol=tol * np.abs(y).max(), scale="max")
        ctx.event("outside_points", int(beyond.sum()))
    # through every data point
    back = ctx.call(sp, Z, xin)
    ctx.close(back, rank4(y), "through_data", "spline misses its data",
              rtol=tol, atol=tol * np.abs(y).max(), scale="max")
    ctx.event("splines_checked")
    ctx.state("1d", k, kind, okind, len(lead), where, len(x) == k + 2)


@family("P20", quick=100, thorough=2500)
def polynomials(ctx):
    """Polynomials up to the degree are reproduced everywhere inside"""
    k = ctx.cycle([1, 2, 3, 4, 5])
    kind, x, c2 = grid(ctx, k)
    deg = ctx.randint(0, k)
    u = lambda v: 2 * (v - x[0]) / (x[-1] - x[0]) - 1
    coef = ctx.rng.standard_normal(deg + 1)
    y = np.polyval(coef, u(x))
    xo = f32(np.sort(ctx.uniform(x[0], x[-1], 60)))
    ctx.params(k=k, deg=deg, n=len(x), grid=kind)
    sp = ctx.call(SplineInterpolate1D, tensor(x), k, x_out=tensor(xo))
    out = ctx.call(sp, tensor(f32(y)))
    want = np.polyval(coef, u(np.clip(xo, x[0], x[-1])))
    tol = 10 * E32 * c2
    ctx.close(out[0, 0, 0], want, "polynomial",
              f"degree {deg} polynomial through a degree {k} spline",
              rtol=0, atol=tol * np.abs(coef).sum())
    # linearity
    a, b = data(ctx, len(x)), data(ctx, len(x))
    p, q = ctx.uniform(-2, 2), ctx.uniform(-2, 2)
    lin = p * sp(tensor(a)).double() + q * sp(tensor(b)).double()
    both = sp(tensor(p * a + q * b))
    s = abs(p) * np.abs(a).max() + abs(q) * np.abs(b).max()
    ctx.close(both, lin, "linear", "not linear in the data", rtol=0,
              atol=tol * s)
    ctx.event("polynomials")
    ctx.state("poly", k, deg, kind)


@family("P20", quick=60, thorough=1200)
def regularised(ctx):
    """A regularisation factor pulls the coefficients towards zero"""
    k = ctx.cycle([1, 2, 3, 4, 5])
    kind, x, c2 = grid(ctx, k, 30)
    s = ctx.loguniform(1e-3, 10.0)
    okind, xo = outputs(ctx, x)
    y = data(ctx, 2, len(x))
    ctx.params(k=k, s=s, n=len(x))
    t = fitpack_knots(x, k)
    B = BSpline.design_matrix(x, t, k).toarray()
    C = np.linalg.solve(B.T @ B + s * np.eye(len(x)), B.T @ y.T)
    Bo = BSpline.design_matrix(np.clip(xo, x[0], x[-1]), t, k).toarray()
    want = (Bo @ C).T
    sp = ctx.call(SplineInterpolate1D, tensor(x), k, s, tensor(xo))
    tol = 10 * E32 * c2
    ctx.close(ctx.call(sp, tensor(y))[0, 0], want, "regularised",
              f"regularisation {s}", rtol=0, atol=tol * np.abs(y).max())
    ctx.event("regularised")
    if ctx.slot(3) == 0:
        ykind, yv, c2y = grid(ctx, k, 15)
        sy = ctx.loguniform(1e-3, 10.0)
        okind, yo = outputs(ctx, yv, 9)
        z = data(ctx, len(yv), len(x))
        ty = fitpack_knots(yv, k)
        By = BSpline.design_matrix(yv, ty, k).toarray()
        Byo = BSpline.design_matrix(np.clip(yo, yv[0], yv[-1]), ty, k).toarray()
        Cz = np.linalg.solve(B.T @ B + s * np.eye(len(x)), B.T @ z.T).T
        Cz = np.linalg.solve(By.T @ By + sy * np.eye(len(yv)), By.T @ Cz)
        sp = ctx.call(SplineInterpolate2D, tensor(x), tensor(yv), k, k, s, sy,
                      tensor(xo), tensor(yo))
        ctx.close(ctx.call(sp, tensor(z))[0, 0], Byo @ Cz @ Bo.T,
                  "regularised", f"regularisation {s}, {sy}", rtol=0,
                  atol=tol * c2y * np.abs(z).max())
    ctx.state("reg", k, round(math.log10(s)))


# ---------------------------------------------------------------- 2-D

@family("P20", quick=150, thorough=3500)
def against_fitpack_2d(ctx):
    kx, ky = ctx.cycle([3, 1, 2, 4, 5]), ctx.cycle([3, 2, 1, 5, 4, 3], 5)
    kind, x, cx = grid(ctx, kx, 25)
    ykind, y, cy = grid(ctx, ky, 25)
    okind, xo = outputs(ctx, x, 20)
    ykind2, yo = outputs(ctx, y, 20)
    lead = ctx.cycle([(), (1,), (3,), (2, 2), (1, 3), (2, 1)], 6)
    if ctx.slot(20) == 13:
        ctx.event("large")
        lead = ctx.choice([(17,), (33, 2), (2, 17), (9, 9), (65, 1), (1, 33)])
    where = ctx.choice(["init", "call", "x", "y", "override"])
    z = data(ctx, *lead, len(y), len(x))
    ctx.params(kx=kx, ky=ky, nx=len(x), ny=len(y), gx=kind, gy=ykind,
               lead=lead, where=where, mx=len(xo), my=len(yo))
    kw = {}
    if where in ("init", "x"):
        kw["x_out"] = tensor(xo)
    if where in ("init", "y"):
        kw["y_out"] = tensor(yo)
    if where == "override":
        kw = {"x_out": tensor(x[:2]), "y_out": tensor(y[1:4])}
    sp = ctx.call(SplineInterpolate2D, tensor(x), tensor(y), kx, ky, **kw)
    ckw = {}
    if where in ("call", "y", "override"):
        ckw["x_out"] = tensor(xo)
    if where in ("call", "x", "override"):
        ckw["y_out"] = tensor(yo)
    out = ctx.call(sp, tensor(z), **ckw)
    ctx.need(tuple(out.shape) == (*rank4(z).shape[:2], len(yo), len(xo)),
             "shape", f"{tuple(out.shape)}")
    want = ref2d(x, y, rank4(z), kx, ky, xo, yo)
    tol = 6 * E32 * (cx + cy) * max(1, math.sqrt(min(cx, cy)) / 4)
    ctx.close(out, want, "interpolated", f"degrees {kx}, {ky}", rtol=tol,
              atol=tol * np.abs(z).max(), scale="max", dtype=torch.float32)
    ctx.maximum("err2d", float(np.abs(out.double().numpy() - want).max() /
                               (2 * tol * np.abs(z).max())))
    back = ctx.call(sp, tensor(z), tensor(x), tensor(y))
    ctx.close(back, rank4(z), "through_data", "surface misses its data",
              rtol=tol, atol=tol * np.abs(z).max(), scale="max")
    if ctx.slot(4) == 0 and kx <= 5 and ky <= 5:
        # FITPACK's own surface, where its own arguments are in range
        r = RectBivariateSpline(y, x, rank4(z)[0, 0], kx=ky, ky=kx, s=0)
        xs, ys = (np.sort(np.clip(v, g[0], g[-1]))
                  for v, g in ((xo, x), (yo, y)))
        surf = ctx.call(sp, tensor(z), tensor(f32(xs)), tensor(f32(ys)))
        ctx.close(surf[0, 0], r(ys, xs), "surface", "FITPACK surface",
                  rtol=tol, atol=tol * np.abs(z).max(), scale="max")
    # agreement with the one-dimensional spline on the data rows
    one = ctx.call(SplineInterpolate1D, tensor(x), kx, x_out=tensor(xo))
    rows = ctx.call(one, tensor(z))
    two = ctx.call(sp, tensor(z), tensor(xo), tensor(y))
    ctx.close(two, rows, "dimensions", "1-D and 2-D interpolation disagree",
              rtol=0, atol=2 * tol * np.abs(z).max())
    ctx.event("splines_checked")
    ctx.state("2d", kx, ky, kind, ykind, len(lead), where)


# ------------------------------------------------------------ histories

@family("P20", quick=80, thorough=2000)
def histories(ctx):
    """Explicit coordinates count for their own call only"""
    two = ctx.cycle([False, True])
    k = ctx.choice([1, 2, 3, 4])
    _, x, c2 = grid(ctx, k, 20)
    _, y, _ = grid(ctx, k, 12)
    has_x, has_y = ctx.cycle([True, True, False], 2), ctx.rng.random() < 0.7
    kw = {}
    if has_x:
        kw["x_out"] = tensor(outputs(ctx, x, 10)[1])
    if two and has_y:
        kw["y_out"] = tensor(outputs(ctx, y, 10)[1])

    def build():
        if two:
            return SplineInterpolate2D(tensor(x), tensor(y), k, k, **kw)
        return SplineInterpolate1D(tensor(x), k, **kw)

    sp = ctx.call(build)
    keys = {n: v.clone() for n, v in sp.state_dict().items()}
    ctx.params(two=two, k=k, nx=len(x), ny=len(y), given=sorted(kw))
    script = []
    for step in range(ctx.randint(4, 8)):
        z = tensor(data(ctx, *ctx.choice([(), (2,), (2, 2)][: 3]),
                        *((len(y),) if two else ()), len(x)))
        ckw = {}
        if ctx.rng.random() < 0.5:
            ckw["x_out"] = tensor(outputs(ctx, x, 10)[1])
        if two and ctx.rng.random() < 0.5:
            ckw["y_out"] = tensor(outputs(ctx, y, 10)[1])
        script.append(sorted(ckw))
        missing = not has_x and "x_out" not in ckw
        if two:
            missing |= not has_y and "y_out" not in ckw
        if missing:
            ctx.raises(ValueError, "missing_coordinates", sp, z, **ckw,
                       msg=f"no coordinates known, calls {script}")
            ctx.event("refusals")
            continue
        out = ctx.call(sp, z, **ckw)
        ctx.equal(out, build()(z, **ckw), "history",
                  f"a used spline differs from a fresh one after {script}")
        ctx.event("history_calls")
        if ctx.rng.random() < 0.2:
            sp = copy.deepcopy(sp)
        if ctx.rng.random() < 0.2:
            fresh = build()
            ctx.call(fresh.load_state_dict, sp.state_dict())
            sp = fresh
    now = sp.state_dict()
    ctx.check(set(now) == set(keys) and all(
        now[n].shape == v.shape and torch.equal(now[n], v)
        for n, v in keys.items()), "state", "saved state changed by calls")
    ctx.state("history", two, has_x, tuple(map(tuple, script))[:3])


@family("P20", quick=60, thorough=300)
def ranks(ctx):
    """Every rank gives the same answer row by row; others are refused"""
    k = ctx.choice([1, 2, 3])
    _, x, c2 = grid(ctx, k, 20)
    _, y, cy = grid(ctx, k, 12)
    xo, yo = outputs(ctx, x, 8)[1], outputs(ctx, y, 8)[1]
    one = ctx.call(SplineInterpolate1D, tensor(x), k, x_out=tensor(xo))
    two = ctx.call(SplineInterpolate2D, tensor(x), tensor(y), k, k,
                   x_out=tensor(xo), y_out=tensor(yo))
    z = tensor(data(ctx, 2, 3, len(y), len(x)))
    ctx.params(k=k, nx=len(x), ny=len(y))
    tol = 20 * E32 * max(c2, cy) * float(z.abs().max())
    full1, full2 = ctx.call(one, z), ctx.call(two, z)
    for b in range(2):
        sub = ctx.call(two, z[b])
        ctx.close(sub[0], full2[b], "rank", "3-D data", rtol=0, atol=tol * 5)
        sub = ctx.call(one, z[b])
        ctx.close(sub[0], full1[b], "rank", "3-D data", rtol=0, atol=tol)
        for c in range(3):
            ctx.close(ctx.call(two, z[b, c])[0, 0], full2[b, c], "rank",
                      "2-D data", rtol=0, atol=tol * 5)
            ctx.close(ctx.call(one, z[b, c])[0, 0], full1[b, c], "rank",
                      "2-D data", rtol=0, atol=tol)
            h = ctx.randint(0, len(y) - 1)
            ctx.close(ctx.call(one, z[b, c, h])[0, 0, 0], full1[b, c, h],
                      "rank", "1-D data", rtol=0, atol=tol)
    ctx.event("ranks_checked")
    ctx.raises(ValueError, "rank5", one, z[None], msg="five dimensions")
    ctx.raises(ValueError, "rank5", two, z[None], msg="five dimensions")
    ctx.raises(ValueError, "rank1", two, z[0, 0, 0], msg="one dimension in 2-D")
    ctx.raises(ValueError, "width", one, z[..., :-1], msg="too narrow")
    ctx.raises(ValueError, "width", two, z[..., :-1], msg="too narrow")
    ctx.raises(ValueError, "height", two, z[..., :-1, :], msg="too low")
    ctx.raises(ValueError, "few_points", SplineInterpolate1D,
               tensor(x[: k + 1]), k, msg="kx + 1 points")
    ctx.raises(ValueError, "few_points", SplineInterpolate2D, tensor(x),
               tensor(y[: k + 1]), k, k, msg="ky + 1 points")
    ctx.event("refusals", 8)
    ctx.state("ranks", k)
