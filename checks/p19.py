"""P19: Q-transforms equal the reference tiling; the scan picks the loudest Q."""

import math
import warnings

import numpy as np
import torch
from gwpy.signal.qtransform import QPlane, QTiling
from scipy.interpolate import InterpolatedUnivariateSpline

from ml4gw.transforms import QScan, SingleQTransform
from ml4gw.transforms.qtransform import QTile
from vlib.core import family

TECHNIQUE = ("output monitors on the transforms: tiles against gwpy's tiling, "
             "maxima, plane selection and interpolation against oracles that "
             "see every tile; planted bursts and call histories")
NOTE = ("gwpy 's QPlane/QTile in double precision are the reference for the "
        "tiles; interpolation is recomputed from the observed tiles in numpy "
        "and scipy.")
RULE = ("seeded random durations, rates, Qs, ranges, mismatches, norms, "
        "ranks; distinct by those classes and number of rows")
ASSUMPTIONS = [
    "Q of at least 4 and frequency ranges whose tiles lie between zero and "
    "the Nyquist frequency (gwpy's own tiling fails outside)",
    "configurations within rounding of a discrete step are skipped",
    "float32 data to 2e-4 of the row's largest energy; float64 to 2e-6",
]
REQUIRED = {"large": 5, "rows_checked": 600, "maxima_checked": 300, "scans_checked": 40,
            "interpolations_checked": 60, "bursts_located": 20,
            "history_calls": 60, "refusals": 40}


def config(ctx, big=False):
    T = ctx.choice([1, 1, 2, 4, 0.5, 1.5, 2.25, 0.75, 3, 8 if big else 1])
    fs = ctx.choice([256, 512, 1024, 2048, 1000, 4096 if big else 512])
    n = int(T * fs)
    T = n / fs
    return T, fs, n


def valid_q(ctx, T, fs):
    max_q = math.pi * T * fs / 50 - 11**0.5
    top = 64 if ctx.slot(15) != 7 else 400
    return math.exp(ctx.uniform(math.log(4), math.log(min(top, 0.9 * max_q))))


def band(ctx, q, T, fs):
    """A frequency range for which every tile lies inside the spectrum"""
    qp = q / 11**0.5
    lo = 50 * q / (2 * math.pi * T)
    hi = fs / 2 / (1 + 1 / qp)
    kind = ctx.choice(["default", "default", "lower", "upper", "both"])
    a = lo * (hi / lo) ** ctx.uniform(-0.2, 0.4)
    b = lo * (hi / lo) ** ctx.uniform(0.6, 0.97)
    if a * (1 - 1 / qp) * T < 2 or a * T < 8:
        a = max(8 / T, 2 / T / (1 - 1 / qp), a)
    if not a < b < hi:
        kind, = ("default",)
    return kind, [a if kind in ("lower", "both") else 0,
                  b if kind in ("upper", "both") else float("inf")]


def signal(ctx, *shape, fs, T, dtype=torch.float32):
    x = ctx.rng.standard_normal(shape)
    t = np.arange(shape[-1]) / fs
    if ctx.rng.random() < 0.5:
        f0 = ctx.uniform(20, fs / 2.5)
        x = x + 5 * np.exp(-((t - T / 3) * f0 / 4) ** 2) * np.cos(
            2 * np.pi * f0 * t)
    x = x * ctx.choice([1.0, 1.0, 1e-3, 30.0])
    if ctx.rng.random() < 0.2:
        x = x + 3.0
    return torch.tensor(x, dtype=dtype)


def spectrum(x):
    f = np.fft.rfft(x.double().numpy(), norm="forward")
    f[..., 1:] *= 2
    return f


def ambiguous(q, f, T, mismatch):
    """is some discrete quantity of this tile within rounding of a step?"""
    qp = q / 11**0.5
    deltam = 2 * (mismatch / 3) ** 0.5
    p = math.log2(T * 2 * math.pi * f / q / deltam)
    w = f / qp * T
    i = f * T
    return (abs(p - round(p)) < 2e-6 or abs(w - round(w)) < 1e-9 * max(w, 1)
            or (abs(i % 1 - 0.5) < 1e-9 * max(i, 1)))


def freqs_reference(q, frange, T, fs, mismatch):
    """(frequencies of gwpy's plane, whether any lies within rounding)"""
    plane = QPlane(q, frange, T, fs, mismatch)
    minf, maxf = plane.frange
    cum = math.log(maxf / minf) * (2 + q**2) ** 0.5 / 2
    ratio = cum / plane.deltam
    n = int(max(1, math.ceil(ratio)))
    v = minf * np.exp(2 / (2 + q**2) ** 0.5 * (np.arange(n) + 0.5) * cum / n)
    v = v * T
    amb = (np.abs(v - np.round(v)) < 1e-10 * v).any() or (
        abs(ratio - round(ratio)) < 1e-9)
    return plane, np.asarray(plane.frequencies), amb


def expected_row(tile, F, norm):
    """gwpy's row for each leading index of F"""
    lead = F.shape[:-1]
    F = F.reshape(-1, F.shape[-1])
    rows = []
    for f in F:
        w = f[tile.get_data_indices()] * tile.get_window()
        del w
        rows.append(np.asarray(tile.transform(f, norm=False, epoch=0)))
    e = np.array(rows, dtype=np.float64)
    if norm == "median":
        e = e / np.median(e, axis=-1, keepdims=True)
    elif norm == "mean":
        e = e / np.mean(e, axis=-1, keepdims=True)
    return e.reshape(*lead, -1)


def rank3(x):
    return x.reshape((1,) * (3 - x.ndim) + x.shape)


# ---------------------------------------------------------------- tiles

@family("P19", quick=70, thorough=1200, priority=1)
def planes(ctx):
    T, fs, n = config(ctx, big=ctx.tier == "thorough" or ctx.slot(12) == 5)
    q = valid_q(ctx, T, fs)
    if ctx.rng.random() < 0.3:  # the default, where it is valid
        q = 12 if 12 < 0.9 * (math.pi * T * fs / 50 - 11**0.5) else q
    mismatch = ctx.choice([0.2, 0.2, 0.35, 0.1, 0.05, 0.5])
    kind, fr = band(ctx, q, T, fs)
    norm = ctx.cycle(["median", "mean", None, "Median", "MEAN", False])
    lead = ctx.cycle([(), (1,), (3,), (1, 1), (2, 1), (1, 2), (2, 3)], 6)
    dtype = ctx.choice([torch.float32, torch.float32, torch.float64])
    ctx.params(T=T, fs=fs, q=q, mismatch=mismatch, frange=fr, norm=norm,
               lead=lead, dtype=str(dtype))
    mine = list(fr)
    if q == 12:
        ctx.event("default_q")
    kw = dict(q=q, frange=mine, mismatch=mismatch)
    tr = ctx.call(SingleQTransform, T, fs, [16, 16], **{
        k: v for k, v in kw.items() if (k, v) not in (("q", 12),
                                                      ("mismatch", 0.2))})
    ctx.check(mine == fr, "frange_altered", "the caller's range was altered")
    plane, freqs, amb = freqs_reference(q, fr, T, fs, mismatch)
    if amb:
        ctx.event("ambiguous")
        return
    got = tr.freqs.double().numpy()
    ctx.need(got.shape == freqs.shape and
             np.allclose(got, freqs, rtol=1e-12, atol=0), "freqs",
             f"frequencies {got[:5]}…({len(got)}) expected {freqs[:5]}…"
             f"({len(freqs)})")
    x = signal(ctx, *lead, n, fs=fs, T=T, dtype=dtype)
    before = x.clone()
    ctx.call(tr.compute_qtiles, x, norm)
    ctx.check(torch.equal(before, x), "input_altered", "input altered")
    ctx.check(len(tr.qtiles) == len(freqs), "rows", "number of rows")
    F = spectrum(rank3(x))
    tol = 2e-4 if dtype == torch.float32 else 3e-6
    want_norm = norm.lower() if norm else norm
    for tile, row in zip(plane, tr.qtiles):
        if ambiguous(q, tile.frequency, T, mismatch):
            ctx.event("ambiguous")
            continue
        if tile.get_data_indices()[-1] > n // 2:
            ctx.event("beyond_nyquist")
            continue
        e = expected_row(tile, F, want_norm)
        ctx.need(tuple(row.shape) == e.shape, "row_shape",
                 f"row {tuple(row.shape)} expected {e.shape}")
        # spectral leakage of a strong constant is float32 rounding noise in
        # quiet rows: allow for it through the row's absolute energy
        base = expected_row(tile, F, None).max(axis=-1, keepdims=True)
        amp = (np.finfo(np.float32 if dtype == torch.float32 else np.float64
                        ).eps * np.abs(F).max(axis=-1, keepdims=True)
               * tile.get_window().sum() / tile.ntiles) ** 2
        leak = np.sqrt(amp / base) * 8
        ctx.close(row.double(), e, "tile",
                  f"row at {tile.frequency} Hz", rtol=0,
                  atol=(tol + leak) * e.max(axis=-1, keepdims=True))
        ctx.event("rows_checked")
        ctx.maximum("row_error", float((np.abs(row.double().numpy() - e) / (
            (tol + leak) * e.max(axis=-1, keepdims=True))).max()))
    ctx.state(kind, want_norm, len(lead), min(len(freqs) // 20, 5),
              round(math.log2(T * fs)))


@family("P19", quick=200, thorough=4000)
def single_tiles(ctx):
    """Rows built directly, at arbitrary frequencies and Qs"""
    T, fs, n = config(ctx, big=ctx.tier == "thorough" or ctx.slot(12) == 5)
    q = math.exp(ctx.uniform(math.log(4), math.log(
        100 if ctx.slot(9) else 600)))
    qp = q / 11**0.5
    mismatch = ctx.choice([0.2, 0.05, 0.35, 0.5])
    lo, hi = 3 / T / (1 - 1 / qp) + 2 / T, (fs / 2 - 2 / T) / (1 + 1 / qp)
    lo = max(lo, qp / T)
    if lo >= hi:
        ctx.event("not_applicable")
        return
    f = math.exp(ctx.uniform(math.log(lo), math.log(hi)))
    if ctx.rng.random() < 0.5:
        f = max(round(f), 1) if lo < round(f) < hi else f
    norm = ctx.cycle(["median", "mean", None])
    lead = ctx.cycle([(), (2,), (2, 2), (1, 3)], 3)
    if ctx.slot(20) == 13:
        ctx.event("large")
        lead = ctx.choice([(17,), (40,), (129,), (1, 9), (2, 17), (33, 2),
                           (65, 1), (9, 9)])
    ctx.params(T=T, fs=fs, q=q, f=f, mismatch=mismatch, norm=norm, lead=lead)
    if ambiguous(q, f, T, mismatch):
        ctx.event("not_applicable")
        return
    tile = ctx.call(QTile, q, f, T, fs, mismatch)
    ref = list(QPlane(q, [f, f * 1.0001], T, fs, mismatch))[0]
    ref.frequency = f
    ctx.check(tile.ntiles() == ref.ntiles, "ntiles",
              f"{tile.ntiles()} tiles, expected {ref.ntiles}")
    ctx.close(tile.get_window(), ref.get_window(), "window", "window",
              rtol=3e-6, scale="max")
    ctx.check(np.array_equal(tile.get_data_indices().numpy(),
                             ref.get_data_indices()), "indices",
              "data indices differ")
    z = (ctx.rng.standard_normal((*lead, n // 2 + 1)) +
         1j * ctx.rng.standard_normal((*lead, n // 2 + 1)))
    X = torch.tensor(z, dtype=torch.complex128)
    if ctx.rng.random() < 0.5:
        X = X.to(torch.complex64)
    out = ctx.call(tile, X, norm)
    e = expected_row(ref, rank3(X.to(torch.complex128)).numpy(), norm)
    ctx.close(out.double(), e, "tile", "row", rtol=0,
              atol=2e-5 * e.max(axis=-1, keepdims=True))
    if norm:
        ctx.check(out.dtype == torch.float32, "tile_dtype", "float32 energies")
    ctx.event("rows_checked")
    ctx.state("tile", norm, len(lead), round(math.log2(ref.ntiles)))


# --------------------------------------------------------------- maxima

@family("P19", quick=60, thorough=900)
def maxima(ctx):
    T, fs, n = config(ctx)
    q = valid_q(ctx, T, fs)
    lead = ctx.cycle([(3, 2), (2, 3), (1, 2), (2, 1), (4,), (),
                      (17, 2), (2, 9), (33,)])
    norm = ctx.choice(["median", "mean", None])
    ctx.params(T=T, fs=fs, q=q, lead=lead, norm=norm)
    tr = ctx.call(SingleQTransform, T, fs, [8, 8], q)
    ctx.raises(RuntimeError, "max_before_tiles", tr.get_max_energy,
               msg="before any tiles")
    ctx.event("refusals")
    x = signal(ctx, *lead, n, fs=fs, T=T)
    # make one element and one channel much louder than the others
    if len(lead) == 2:
        loud = tuple(ctx.randint(0, k - 1) for k in lead)
        x[loud] += 20 * torch.cos(
            2 * np.pi * ctx.uniform(0.1, 0.3) * torch.arange(n)) * (
                torch.arange(n) > n * 0.8)
    ctx.call(tr.compute_qtiles, x, norm)
    f = tr.freqs.numpy()
    E = np.stack([r.double().amax(-1).numpy() for r in tr.qtiles], -1)
    # E: (batch, channel, frequency)
    ranges = [None]
    for _ in range(4):
        a = ctx.uniform(0.5 * f[0], f[-1] * 1.05)
        b = a + ctx.uniform(0, 1.2 * f[-1])
        ranges.append((a, b))
    ranges += [(0.0, 2 * f[-1]), (f[-1] - 1e-3, fs), (f[-1] + 1, fs),
               (0.0, f[0] - 1e-3), [0, float("inf")], (f[0] - 0.1, f[0] + 0.1)]
    for fr in ranges:
        lo, hi = fr if fr is not None else (-1, np.inf)
        if np.any(np.abs(f - lo) < 1e-6) or np.any(np.abs(f - hi) < 1e-6):
            continue
        m = (f > lo) & (f < hi)
        for dim in ("both", "neither", "channel", "batch"):
            if not m.any():
                ctx.raises(Exception, "empty_range", tr.get_max_energy, fr,
                           dim, msg=f"nothing to search in {fr}")
                ctx.event("refusals")
                continue
            full = E[..., m].max(-1)
            want = {"both": full.max(), "neither": full,
                    "channel": full.max(1), "batch": full.max(0)}[dim]
            got = ctx.call(tr.get_max_energy, fr, dim)
            ctx.need(tuple(got.shape) == np.shape(want), "max_shape",
                     f"{dim}: {tuple(got.shape)} expected {np.shape(want)}")
            ctx.check(np.array_equal(got.double().numpy(), want), "maximum",
                      f"{dim} in {fr}: {got} expected {want}",
                      freqs=f)
            ctx.event("maxima_checked")
    ctx.check(ctx.call(tr.get_max_energy) == E.max(), "maximum", "defaults")
    ctx.raises(ValueError, "bad_dimension", tr.get_max_energy,
               dimension=ctx.choice(["time", "bogus", "Both", ""]),
               msg="unknown reduction")
    ctx.event("refusals")
    ctx.state("max", lead, norm, min(len(f) // 10, 5))


# ----------------------------------------------------------------- scan

@family("P19", quick=40, thorough=600)
def scans(ctx):
    T, fs, n = config(ctx)
    mismatch = ctx.choice([0.2, 0.35, 0.1])
    qr = ctx.choice([None, [4, 64], [4, 30], [6, 20], [8, 8.5], [10, 120]])
    frkind = ctx.choice(["none", "none", "low", "both"])
    fr = {"none": None, "low": [ctx.uniform(30, 50), float("inf")],
          "both": [ctx.uniform(30, 50), fs / 4]}[frkind]
    if T < 1 and fr:
        fr = None
    method = ctx.choice(["bilinear", "bicubic"])
    shape = [ctx.randint(2, 40), ctx.randint(2, 40)]
    lead = ctx.cycle([(2, 2), (), (3,), (1, 1), (1, 2)])
    norm = ctx.choice(["median", "mean", None])
    ctx.params(T=T, fs=fs, qrange=qr, frange=fr, mismatch=mismatch,
               method=method, shape=shape, lead=lead, norm=norm)
    max_q = math.pi * T * fs / 50 - 11**0.5
    tiling = QTiling(T, fs, tuple(qr or (4, 64)), (0, np.inf), mismatch)
    qs = [float(v) for v in tiling.qs]
    usable = [v for v in qs if v < max_q]
    if fr is not None:
        usable_ok = all(
            fr[0] < 0.8 * (fr[1] if math.isfinite(fr[1]) else
                           fs / 2 / (1 + 11**0.5 / v)) for v in usable)
        if not usable_ok:
            ctx.event("not_applicable")
            return
    if not usable:
        ctx.event("not_applicable")
        return
    kw = {} if qr is None else {"qrange": list(qr)}
    own = None if fr is None else list(fr)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        scan = ctx.call(QScan, T, fs, shape, frange=own,
                        interpolation_method=method, mismatch=mismatch, **kw)
    ctx.check(own == fr and kw.get("qrange", qr) == qr, "frange_altered",
              "the caller's ranges were altered")
    ctx.close(np.array(scan.get_qs()), np.array(qs), "qs", "Q values",
              rtol=1e-12, atol=0)
    ctx.check(any("Q values exceed" in str(w.message) for w in caught) ==
              (qs[-1] >= max_q), "warning", "warning iff Q values are dropped")
    got = [t.q for t in scan.q_transforms]
    ctx.need(len(got) == len(usable) and np.allclose(got, usable), "planes",
             f"planes {got}, expected {usable}")
    singles = [SingleQTransform(T, fs, shape, v,
                                None if fr is None else list(fr),
                                mismatch=mismatch, interpolation_method=method)
               for v in scan.get_qs() if v < max_q]
    searches = [None, (0, fs), (ctx.uniform(20, 60), ctx.uniform(80, fs / 3)),
                (ctx.uniform(fs / 8, fs / 5), fs / 2)]
    # ranges holding rows of only a few planes, or of none before them
    top = float(singles[0].freqs[-1])
    row = float(ctx.choice(ctx.choice(singles).freqs.tolist()))
    searches += [(top * 1.0001, fs), (row * 0.999, row * 1.001)]
    for k, search in enumerate(searches):
        x = signal(ctx, *lead, n, fs=fs, T=T)
        if k % 2:
            t = torch.arange(n) / fs
            f0 = ctx.uniform(40, fs / 3)
            q0 = ctx.uniform(4, 40)
            tau = q0 / (2 * np.pi * f0)
            x = x + ctx.uniform(2, 20) * torch.exp(-(((t - T / 2) / tau) ** 2)
                                                   ) * torch.cos(6.28318 * f0 * t)
        energies = []
        for s in singles:
            s.compute_qtiles(x, norm)
            f = s.freqs.numpy()
            lo, hi = search or (-1, np.inf)
            energies.append(max([float(r.max()) for r, v in zip(s.qtiles, f)
                                 if lo < v < hi], default=-np.inf))
        energies = np.array(energies)
        if not np.isfinite(energies).any():
            ctx.raises(Exception, "empty_range", scan, x, search, norm,
                       msg="no row in the search range")
            ctx.event("refusals")
            continue
        order = np.sort(energies)
        if len(order) > 1 and order[-2] > order[-1] * (1 - 1e-5):
            ctx.event("ambiguous")
            continue
        best = singles[int(np.argmax(energies))]
        out = ctx.call(scan, x, search, norm)
        want = best(x, norm)
        ctx.need(out.shape == want.shape, "scan_shape",
                 f"{tuple(out.shape)} expected {tuple(want.shape)}")
        ctx.check(tuple(out.shape) == (*lead, *shape), "shape",
                  f"{tuple(out.shape)} expected {(*lead, *shape)}")
        ctx.check(torch.allclose(out, want, rtol=1e-5, atol=1e-6 * float(
            want.abs().max())), "scan_plane",
            f"scan in {search} is not the loudest plane's transform "
            f"(Q={best.q}, energies {energies})")
        ctx.event("scans_checked")
        ctx.state("scan", int(np.argmax(energies)), len(energies),
                  np.isinf(energies).any(), search is None)


# -------------------------------------------------------- interpolation

def resize_matrix(n_in, n_out, mode):
    """weights of torch-style resampling with half-pixel centres"""
    W = np.zeros((n_out, n_in))
    s = (np.arange(n_out) + 0.5) * n_in / n_out - 0.5
    if n_in == n_out:
        return np.eye(n_in)
    if mode == "bilinear":
        s = np.clip(s, 0, None)
        i0 = np.minimum(np.floor(s).astype(int), n_in - 1)
        w = s - i0
        i1 = np.minimum(i0 + 1, n_in - 1)
        for k in range(n_out):
            W[k, i0[k]] += 1 - w[k]
            W[k, i1[k]] += w[k]
        return W
    a = -0.75
    i0 = np.floor(s).astype(int)
    for k in range(n_out):
        for j in range(-1, 3):
            d = abs(s[k] - i0[k] - j)
            if d <= 1:
                c = (a + 2) * d**3 - (a + 3) * d**2 + 1
            else:
                c = a * d**3 - 5 * a * d**2 + 8 * a * d - 4 * a
            W[k, min(max(i0[k] + j, 0), n_in - 1)] += c
    return W


def spline_matrix(x_in, x_out):
    x_in = np.asarray(x_in, dtype=np.float64)
    x_out = np.clip(x_out, x_in[0], x_in[-1])
    W = np.empty((len(x_out), len(x_in)))
    for k in range(len(x_in)):
        e = np.zeros(len(x_in))
        e[k] = 1
        W[:, k] = InterpolatedUnivariateSpline(x_in, e, k=3)(x_out)
    return W


@family("P19", quick=60, thorough=700)
def interpolation(ctx):
    method = ctx.cycle(["bilinear", "bicubic", "spline", "bicubic"])
    T, fs, n = config(ctx)
    if method == "spline":
        T, fs = ctx.choice([(1, 256), (0.5, 512), (1, 512), (1.1, 250),
                            (0.7, 500), (0.3, 1000)])
        n = round(T * fs)
    q = valid_q(ctx, T, fs)
    mismatch = ctx.choice([0.2, 0.2, 0.1, 0.05])
    if method == "spline":
        q = min(q, 20.0 if mismatch < 0.2 else 12.0)
    shape = [ctx.randint(1, 50), ctx.randint(1, 70)]
    if ctx.slot(5) == 0:
        shape[ctx.randint(0, 1)] = 1
    if method == "spline":
        if len(SingleQTransform(T, fs, shape, q,
                                mismatch=mismatch).freqs) < 5:
            # too few rows for a cubic spline
            ctx.raises(ValueError, "few_rows", SingleQTransform, T, fs, shape,
                       q, interpolation_method=method, mismatch=mismatch,
                       msg="fewer than 5 rows")
            return
    lead = ctx.cycle([(), (1,), (2,), (1, 1), (2, 1), (1, 2), (2, 3)], 4)
    norm = ctx.choice(["median", "mean", None])
    ctx.params(T=T, fs=fs, q=q, method=method, shape=shape, lead=lead,
               norm=norm, mismatch=mismatch)
    tr = ctx.call(SingleQTransform, T, fs, shape, q, mismatch=mismatch,
                  interpolation_method=method)
    ctx.event("many_rows", len(tr.freqs) > 40)
    ctx.raises(RuntimeError, "interp_before_tiles", tr.interpolate,
               msg="before any tiles")
    ctx.event("refusals")
    for _ in range(2):
        x = signal(ctx, *lead, n, fs=fs, T=T)
        out = ctx.call(tr, x, norm)
        ctx.need(tuple(out.shape) == (*lead, *shape), "shape",
                 f"{tuple(out.shape)} expected {(*lead, *shape)}")
        f = tr.freqs.numpy()
        rows = [r.double().numpy() for r in tr.qtiles]
        if method == "spline":
            mats = {}
            t_out = np.arange(shape[1]) * T / shape[1]
            for r in rows:
                m = r.shape[-1]
                if m not in mats:
                    mats[m] = spline_matrix(np.arange(m) * T / m, t_out)
            g = np.stack([r @ mats[r.shape[-1]].T for r in rows], -2)
            f_out = np.logspace(math.log10(tr.frange[0]),
                                math.log10(tr.frange[-1]), shape[0])
            want = np.einsum("gf,bcft->bcgt", spline_matrix(f, f_out), g)
            tol = 1e-4
        else:
            g = np.stack([r @ resize_matrix(r.shape[-1], shape[1], method).T
                          for r in rows], -2)
            want = np.einsum("gf,bcft->bcgt",
                             resize_matrix(len(f), shape[0], method), g)
            tol = 1e-4 + 3e-7 * max(r.shape[-1] for r in rows)
        want = want.reshape(out.shape)
        ctx.close(out.double(), want, "interpolated",
                  f"{method} interpolation of the tiles", rtol=tol,
                  scale="max")
        ctx.maximum(method, float(np.abs(out.double().numpy() - want).max() / np.abs(want).max()))
        ctx.event("interpolations_checked")
        again = ctx.call(tr.interpolate)
        ctx.check(torch.equal(again, out), "interpolate_again",
                  "interpolating again differs")
        lead = ctx.choice([(), (2,), (1, 1), (2, 2), (5, 3)])
    ctx.state("interp", method, len(lead), shape[0] == 1, shape[1] == 1)


@family("P19", quick=60, thorough=900)
def bursts(ctx):
    """A loud tone burst appears at its time and frequency"""
    T, fs = ctx.choice([(1, 1024), (2, 1024), (4, 512), (1.5, 2048),
                        (1, 2048)])
    n = int(T * fs)
    method = ctx.cycle(["bicubic", "bilinear", "bicubic", "spline"])
    if method == "spline":
        T, fs, n = 1, 512, 512
    q = ctx.uniform(5, 15)
    lead = ctx.cycle([(), (2, 2), (3,), (1, 2)], 4)
    shape = [ctx.randint(48, 96), ctx.randint(64, 160)]
    use_scan = ctx.rng.random() < 0.3 and method != "spline"
    qp = q / 11**0.5
    lo = 50 * q / (2 * math.pi * T)
    hi = fs / 2 / (1 + 1 / qp)
    if hi < 3 * lo:
        ctx.event("not_applicable")
        return
    f0 = lo * (hi / lo) ** ctx.uniform(0.25, 0.8)
    t0 = ctx.uniform(0.2, 0.8) * T
    tau = q / (2 * math.pi * f0)
    # resampling looks at single points: bins must not step over the burst
    shape[1] = max(shape[1], int(1.5 * T / tau) + 1)
    ctx.params(T=T, fs=fs, q=q, f0=f0, t0=t0, method=method, shape=shape,
               lead=lead, scan=use_scan)
    t = np.arange(n) / fs
    x = 0.05 * ctx.rng.standard_normal((*lead, n))
    where = tuple(ctx.randint(0, k - 1) for k in lead)
    x[where] += np.exp(-(((t - t0) / tau) ** 2) / 2) * np.cos(
        2 * np.pi * f0 * (t - t0) + ctx.uniform(0, 6))
    x = torch.tensor(x, dtype=torch.float32)
    if use_scan:
        tr = ctx.call(QScan, T, fs, shape, [4, 20], frange=[lo, hi],
                      interpolation_method=method)
    else:
        tr = ctx.call(SingleQTransform, T, fs, shape, q,
                      interpolation_method=method)
    out = ctx.call(tr, x, norm="mean" if use_scan else None)
    ctx.need(tuple(out.shape) == (*lead, *shape), "shape",
             f"{tuple(out.shape)}")
    if not use_scan:
        flat = int(out.reshape(-1, shape[0] * shape[1]).amax(-1).argmax())
        ctx.check(np.unravel_index(flat, lead or (1,)) == (where or (0,)),
                  "burst_element", f"burst of element {where} seen in {flat}")
    sp = out[where]
    k = int(sp.argmax())
    row, col = k // shape[1], k % shape[1]
    f_low, f_high = lo, hi
    fr = f_low * (f_high / f_low) ** ((row + 0.5) / shape[0])
    # methods place bin centres differently: allow one bin each way, the
    # burst's own width and the width of a tile
    q_eff = 20 if use_scan else q
    tw = q_eff / (2 * math.pi * f0)
    tcol = (col + 0.5) / shape[1] * T
    ctx.check(abs(tcol - t0) < 1.5 * T / shape[1] + 1.5 * tau + 0.5 * tw,
              "burst_time", f"burst at {t0} s seen at {tcol} s")
    ratio = (f_high / f_low) ** (1.5 / shape[0])
    nrow = len(tr.freqs) if not use_scan else 10
    spacing = (f_high / f_low) ** (1.5 / nrow)
    slack = math.log(ratio * spacing) + 2.0 / min(q, q_eff) + 1 / (f0 * T)
    ctx.check(abs(math.log(fr / f0)) < slack, "burst_frequency",
              f"burst at {f0} Hz seen at {fr} Hz (slack {slack})")
    ctx.event("bursts_located")
    ctx.state("burst", method, use_scan, len(lead))


# ------------------------------------------------------------ histories

@family("P19", quick=30, thorough=400)
def histories(ctx):
    T, fs, n = config(ctx)
    q = valid_q(ctx, T, fs)
    shape = [ctx.randint(2, 20), ctx.randint(2, 20)]
    kind = ctx.cycle(["single", "scan"])
    ctx.params(T=T, fs=fs, q=q, kind=kind)

    def build():
        if kind == "single":
            return SingleQTransform(T, fs, shape, q)
        return QScan(T, fs, shape, [4, min(30.0, max(q, 5))])

    used = ctx.call(build)
    state = {k: v.clone() for k, v in used.state_dict().items()}
    for _ in range(4):
        lead = ctx.choice([(), (2,), (2, 2), (1, 3), (3, 1)])
        if ctx.slot(10) == 3:
            lead = ctx.choice([(12,), (9, 2), (1, 17), (33,)])
        norm = ctx.choice(["median", "mean", None])
        x = signal(ctx, *lead, n, fs=fs, T=T,
                   dtype=ctx.choice([torch.float32, torch.float64]))
        out = ctx.call(used, x, norm=norm)
        fresh = build()(x, norm=norm)
        ctx.equal(out, fresh, "history", "a used transform differs from a "
                  "fresh one")
        # batch = stack of elements
        if kind == "single" and len(lead):
            flat = x.reshape(-1, n)
            parts = torch.stack([build()(v, norm=norm) for v in flat])
            ctx.close(out.reshape(parts.shape), parts, "batch",
                      "batch is not the stack of its elements", rtol=1e-5,
                      scale="rowmax")
        ctx.event("history_calls")
    for k, v in used.state_dict().items():
        ctx.check(torch.equal(v, state[k]), "state", f"{k} changed")
    ctx.state("history", kind)


@family("P19", quick=20, thorough=60)
def refusals(ctx):
    T, fs, n = config(ctx)
    max_q = math.pi * T * fs / 50 - 11**0.5
    ctx.params(T=T, fs=fs)
    bad = max_q * ctx.choice([1.0001, 1.5, 3])
    ctx.raises(ValueError, "q_too_large", SingleQTransform, T, fs, [8, 8], bad,
               msg=f"Q {bad} above {max_q}")
    if max_q > 6:
        ctx.call(SingleQTransform, T, fs, [8, 8], max_q * 0.98)
    ctx.raises(ValueError, "bad_method", SingleQTransform, T, fs, [8, 8], 4,
               interpolation_method=ctx.choice(["nearest", "Spline", ""]),
               msg="unknown interpolation")
    tile = QTile(8.0, fs / 8, T, fs, 0.2)
    X = torch.randn(n // 2 + 1, dtype=torch.complex64)
    ctx.raises(ValueError, "bad_norm", tile, X, ctx.choice(["max", "medians"]),
               msg="unknown normalisation")
    ctx.raises(ValueError, "rank4", tile, X.reshape(1, 1, 1, -1),
               msg="four dimensions")
    ctx.event("refusals", 4)
    ctx.state("refusal")
