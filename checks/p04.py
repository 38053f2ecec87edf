"""P04: HDF5 sampling under every coincidence mode and worker split."""

import itertools
import os
import shutil
import tempfile

import h5py
import numpy as np
import torch

from ml4gw.dataloading import Hdf5TimeSeriesDataset
from vlib.core import family, to_np
from vlib.stats import P_FALSE, binom_p, bins_p, chi2_p, lag_p

TECHNIQUE = ("history checker over real HDF5 files with unique sample ids, "
             "statistical monitors, and DataLoader worker schedules")
NOTE = ("Each sample's value names its file, channel and offset; every batch "
        "is checked against the coincidence contract, file shares and start "
        "positions by chi-square (p<1e-10), epochs by counting over 0-5 real "
        "loader worker processes.")
RULE = (
    "seeded random file-length mixes, channel orders, modes, limits, worker "
    "counts; distinct by mode, files, limit, channels, one-window files"
)
ASSUMPTIONS = ["all requested channels of a file have the same length"]
REQUIRED = {"windows_identified": 3000, "large": 6, "epochs_counted": 20,
            "file_share_tests": 10, "subset_tests": 10,
            "repeat_tests": 3, "start_uniformity_tests": 10}
NAMES = ["H1", "L1", "V1", "K1", "aux:x", "zz", "a", "Z9", "b/c", "10", "9"]


class Files:
    def __init__(self, ctx, sizes, channels, extra=True):
        self.dir = tempfile.mkdtemp(prefix="p04-")
        self.fnames, self.data = [], {}
        n = 1
        order = ctx.rng.permutation(len(sizes))
        for j, size in enumerate(sizes):
            # names not in length order, nor in sorted order
            f = os.path.join(self.dir, f"f{order[j]}.h5")
            names = list(channels) + (["unused"] if extra else [])
            with h5py.File(f, "w") as h:
                for c in [names[q] for q in ctx.rng.permutation(len(names))]:
                    ids = np.arange(n, n + size, dtype=np.float64)
                    n += size + 1
                    self.data[f, c] = ids
                    dt = ctx.choice(["f4", "f8"])
                    if ctx.rng.random() < 0.5:
                        h.create_dataset(c, data=ids.astype(dt),
                                         chunks=(max(1, size // 3),))
                    else:
                        h.create_dataset(c, data=ids.astype(dt))
            self.fnames.append(f)
        self.table = np.zeros((n + 1, 3), int) - 1
        for fi, f in enumerate(self.fnames):
            for ci, c in enumerate(channels):
                d = self.data[f, c].astype(int)
                self.table[d, 0], self.table[d, 1] = fi, ci
                self.table[d, 2] = np.arange(len(d))
        self.sizes = sizes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def identify(ctx, x, fs, p):
    """(file, start) of each (row, channel); verdict on contiguity, order"""
    ctx.need(isinstance(x, torch.Tensor), "batch-type", str(type(x)))
    B, C, k = p["B"], p["C"], p["k"]
    ctx.need(tuple(x.shape) == (B, C, k), "batch-shape", str(tuple(x.shape)))
    a = np.rint(to_np(x)).astype(int)
    ctx.need((a > 0).all() and (a < len(fs.table)).all()
             and (to_np(x) == a).all(), "foreign-sample",
             "a sample is not in the files")
    t = fs.table[a]  # B C k 3
    ctx.need((t[..., 0] >= 0).all(), "foreign-sample",
             "sample of a channel that was not requested")
    ctx.need((t[..., 0] == t[..., :1, 0]).all(), "not-a-window",
             "window mixes files")
    ctx.need((t[..., 2] == t[..., :1, 2] + np.arange(k)).all(),
             "not-a-window", "window is not contiguous")
    ctx.need((t[..., 1] == np.arange(C)[None, :, None]).all(),
             "channel-order", "channels out of the requested order")
    f, s = t[:, :, 0, 0], t[:, :, 0, 2]
    ctx.event("windows_identified", f.size)
    if p["co"] is not False:
        ctx.need((f == f[:, :1]).all(), "files-not-shared",
                 "channels of one element come from different files")
    if p["co"] is True:
        ctx.need((s == s[:, :1]).all(), "times-not-shared",
                 "coincident channels start at different times")
    if p["limit"] is not None:
        ctx.need(len(np.unique(f)) <= p["limit"], "too-many-files",
                 f"{len(np.unique(f))} files in a batch, limit {p['limit']}")
    ctx.event("batches_checked")
    return f, s


def setting(ctx, nf=None):
    k = ctx.randint(1, 30)
    nf = nf or ctx.randint(1, 5)
    sizes = [k + ctx.choice([0, 1, ctx.randint(0, 40), ctx.randint(0, 400)])
             for _ in range(nf)]
    C = ctx.randint(1, 4)
    channels = [NAMES[q] for q in ctx.rng.permutation(len(NAMES))[:C]]
    co = ctx.cycle([True, "files", False])
    B = ctx.choice([1, 2, ctx.randint(1, 40)])
    limit = ctx.choice([None, None, 1, ctx.randint(1, nf), nf])
    if ctx.rng.random() < 0.05:
        ctx.event("large")
        what = ctx.choice(["files", "samples", "batch", "channels", "window"])
        if what == "files":
            sizes = [k + ctx.randint(0, 60) for _ in range(
                ctx.choice([12, 18, 35]))]
            limit = ctx.choice([None, 11, 2])
        elif what == "samples":
            sizes[0] += ctx.choice([33000, 70000, 140000])
        elif what == "batch":
            B = ctx.choice([130, 257, 600])
        elif what == "channels":
            C = len(NAMES)
            channels = [NAMES[q] for q in ctx.rng.permutation(C)]
        else:
            k += 2000
            sizes = [n + 2000 for n in sizes]
    return sizes, channels, dict(k=k, C=C, co=co, B=B, limit=limit)


def build(ctx, fs, channels, p, per_epoch):
    return ctx.call(Hdf5TimeSeriesDataset, fs.fnames, channels, p["k"],
                    p["B"], per_epoch, p["co"], p["limit"])


@family("P04", quick=300, thorough=6000)
def batches(ctx):
    sizes, channels, p = setting(ctx)
    n = ctx.randint(1, 5)
    ctx.params(sizes=sizes, channels=channels, **p, epoch=n)
    with Files(ctx, sizes, channels) as fs:
        ds = build(ctx, fs, channels, p, n)
        for _ in range(2):
            got = 0
            for x in ds:
                identify(ctx, x, fs, p)
                got += 1
                ctx.need(got <= n, "epoch-length", "too many batches")
            ctx.check(got == n == len(ds), "epoch-length",
                      f"{got} batches, announced {len(ds)}, asked {n}")
        identify(ctx, ctx.call(ds.sample_batch), fs, p)
        names = ctx.call(ds.sample_fnames, (p["B"],))
        ctx.check(set(names) <= set(fs.fnames), "foreign-file",
                  "unknown file name sampled")
    ctx.state(str(p["co"]), len(sizes), p["limit"], p["C"], p["B"] == 1,
              min(sizes) == p["k"], len(set(sizes)) == 1)


@family("P04", quick=30, thorough=300)
def shares(ctx):
    """file shares and start positions over long histories"""
    co = ctx.cycle([True, "files", False])
    nf = ctx.randint(2, 4)
    k = ctx.randint(1, 6)
    npos = [ctx.randint(1, 10) for _ in range(nf)]
    if ctx.slot(3) == 1:
        npos[0] = 1
    sizes = [k + m - 1 + (ctx.randint(0, 3) * 0) for m in npos]
    limit = ctx.choice([None, 1, nf, max(1, nf - 1)])
    C = ctx.randint(1, 3) if co is not True else ctx.randint(1, 2)
    channels = [NAMES[q] for q in ctx.rng.permutation(len(NAMES))[:C]]
    B = 60 if limit != 1 else 4
    nb = 40 if limit != 1 else 500
    p = dict(k=k, C=C, co=co, B=B, limit=limit)
    ctx.params(sizes=sizes, channels=channels, **p)
    probs = np.array(sizes) / sum(sizes)
    with Files(ctx, sizes, channels) as fs:
        ds = build(ctx, fs, channels, p, nb)
        F, S = zip(*[identify(ctx, x, fs, p) for x in ds])
    F, S = np.stack(F), np.stack(S)  # nb B C
    per = F[..., :1] if co is not False else F
    # file shares
    if limit is None or limit == nf:
        counts = np.bincount(per.ravel(), minlength=nf)
        pv = chi2_p(counts, probs)
        ctx.check(pv > P_FALSE, "file-share",
                  f"files drawn {counts.tolist()}, lengths {sizes}, p={pv:.2g}")
        ctx.event("file_share_tests")
        # rows independent: number of distinct batch compositions
        if B >= 30:
            a, b = per[:, 0::2, 0].ravel(), per[:, 1::2, 0].ravel()
            joint = np.bincount(a * nf + b, minlength=nf * nf)
            e = np.outer(probs, probs).ravel()
            if (e * joint.sum()).min() > 6:
                pv = chi2_p(joint, e)
                ctx.check(pv > P_FALSE, "rows-dependent",
                          f"files of successive rows dependent, p={pv:.2g}")
        if co is False and C > 1:
            joint = np.bincount((F[..., 0] * nf + F[..., 1]).ravel(),
                                minlength=nf * nf)
            e = np.outer(probs, probs).ravel()
            if (e * joint.sum()).min() > 6:
                pv = chi2_p(joint, e)
                ctx.check(pv > P_FALSE, "channels-dependent",
                          f"files of two channels dependent, p={pv:.2g}")
                ctx.event("independence_tests")
    elif limit == 1:
        counts = np.bincount(F[:, 0, 0], minlength=nf)
        if (probs * nb).min() > 6:
            pv = chi2_p(counts, probs)
            ctx.check(pv > P_FALSE, "file-share",
                      f"single-file batches {counts.tolist()}, lengths "
                      f"{sizes}, p={pv:.2g}")
            ctx.event("file_share_tests")
    else:
        # within the files a batch was given, shares go by length
        obs, exp = np.zeros(nf), np.zeros(nf)
        for j in range(nb):
            present = np.unique(per[j])
            if len(present) < limit:
                continue
            q = probs[present] / probs[present].sum()
            n = per[j].size
            if (q * n).min() < 8:
                continue
            obs += np.bincount(per[j].ravel(), minlength=nf)
            exp[present] += q * n
        if exp.sum() > 400 and (exp[exp > 0]).min() > 20:
            keep = exp > 0
            pv = chi2_p(obs[keep], exp[keep] / exp.sum())
            ctx.check(pv > P_FALSE, "file-share",
                      f"within-batch files {obs.tolist()} expected "
                      f"{exp.tolist()}, p={pv:.2g}")
            ctx.event("file_share_tests")
    # start positions
    cols = S if co is not True else S[..., :1]
    for f in range(nf):
        sel = cols[F[..., : cols.shape[-1]] == f]
        m = sizes[f] - k + 1
        if len(sel) < 30 * m + 60:
            continue
        counts = np.bincount(sel, minlength=m)
        ctx.check((counts > 0).all(), "start-never-drawn",
                  f"file with {m} positions: {counts.tolist()}")
        if m > 1:
            pv = chi2_p(counts)
            ctx.check(pv > P_FALSE, "start-not-uniform",
                      f"positions {counts.tolist()} p={pv:.2g}")
        ctx.event("start_uniformity_tests")
    # independent start times over channels / rows
    if co is not True and C > 1:
        f = int(np.argmax(sizes))
        both = (F[..., 0] == f) & (F[..., 1] == f)
        m = sizes[f] - k + 1
        if m > 1 and both.sum() > 60 * m * m / 5:
            h = min(m, 2)
            a = S[..., 0][both] * h // m
            b = S[..., 1][both] * h // m
            w = np.bincount(np.arange(m) * h // m, minlength=h) / m
            pv = chi2_p(np.bincount(a * h + b, minlength=h * h),
                        np.outer(w, w).ravel())
            ctx.check(pv > P_FALSE, "times-dependent",
                      f"start times of two channels dependent, p={pv:.2g}")
            ctx.event("independence_tests")
    f = int(np.argmax(sizes))
    m = sizes[f] - k + 1
    if m > 1 and B >= 30:
        both = (F[:, 0::2, 0] == f) & (F[:, 1::2, 0] == f)
        if both.sum() > 80:
            h = 2
            a = S[:, 0::2, 0][both] * h // m
            b = S[:, 1::2, 0][both] * h // m
            w = np.bincount(np.arange(m) * h // m, minlength=h) / m
            if (np.outer(w, w) * both.sum()).min() > 6:
                pv = chi2_p(np.bincount(a * h + b, minlength=h * h),
                            np.outer(w, w).ravel())
                ctx.check(pv > P_FALSE, "rows-dependent",
                          f"start times of two rows dependent, p={pv:.2g}")
                ctx.event("independence_tests")
    ctx.state("shares", str(co), nf, limit, C)


def presence(probs, limit, rows):
    """probability that each file appears in a batch of ``rows`` draws: a
    weighted draw of ``limit`` files without replacement, then rows by
    length among them"""
    nf = len(probs)
    out = np.zeros(nf)
    for order in itertools.permutations(range(nf), limit):
        pr, left = 1.0, 1.0
        for f in order:
            pr *= probs[f] / left
            left -= probs[f]
        q = probs[list(order)]
        out[list(order)] += pr * (1 - (1 - q / q.sum()) ** rows)
    return out


@family("P04", quick=16, thorough=160)
def subsets(ctx):
    """which files make it into a batch"""
    co = ctx.cycle([True, "files", False])
    k = ctx.randint(1, 5)
    if ctx.slot(2):
        nf = ctx.randint(2, 5)
        limit = ctx.randint(1, nf)
        sizes = [k + ctx.choice([1, 9, ctx.randint(0, 40)]) for _ in range(nf)]
    else:  # many files, all of them allowed
        nf = ctx.choice([7, 9, 12, 20])
        limit = ctx.choice([None, nf])
        sizes = [k + ctx.randint(10, 30) for _ in range(nf)]
    C = ctx.randint(1, 3)
    channels = [NAMES[q] for q in ctx.rng.permutation(len(NAMES))[:C]]
    B, nb = ctx.choice([1, 2, 8, 40]), 400
    p = dict(k=k, C=C, co=co, B=B, limit=limit)
    ctx.params(sizes=sizes, channels=channels, **p)
    probs = np.array(sizes) / sum(sizes)
    with Files(ctx, sizes, channels) as fs:
        ds = build(ctx, fs, channels, p, nb)
        got = np.zeros(nf, int)
        rows = (B,) if co is not False else (B, C)
        for j in range(nb):
            if j < 20:
                f, _ = identify(ctx, ctx.call(ds.sample_batch), fs, p)
            else:
                names = ctx.call(ds.sample_fnames, rows)
                f = [fs.fnames.index(n) for n in np.unique(names)]
            got[np.unique(f)] += 1
    if limit in (None, nf):
        want = 1 - (1 - probs) ** int(np.prod(rows))
    else:
        want = presence(probs, limit, int(np.prod(rows)))
    for f in range(nf):
        pv = binom_p(int(got[f]), nb, min(1.0, want[f]))
        if want[f] > 1 - 1e-9:
            pv = 1.0 if got[f] == nb else 0.0
        ctx.check(pv > P_FALSE, "files-per-batch",
                  f"file {f} in {got[f]} of {nb} batches, expected "
                  f"{nb * want[f]:.1f}, p={pv:.2g}")
    ctx.event("subset_tests")
    ctx.state("subsets", str(co), nf, limit)


@family("P04", quick=12, thorough=100)
def long_files(ctx):
    """every position of long files, and draws that do not repeat"""
    co = ctx.cycle([True, "files", False])
    k = ctx.randint(1, 5)
    C = ctx.randint(1, 3)
    channels = [NAMES[q] for q in ctx.rng.permutation(len(NAMES))[:C]]
    big = ctx.slot(3) == 2
    m = ctx.randint(5000, 90000) if big else ctx.randint(40, 160)
    sizes = [m + k - 1]
    B = ctx.choice([150, 300, 500])
    nb = 2 if big else -(-40 * m // B)
    p = dict(k=k, C=C, co=co, B=B, limit=None)
    ctx.params(sizes=sizes, channels=channels, **p)
    with Files(ctx, sizes, channels) as fs:
        ds = build(ctx, fs, channels, p, nb)
        S = np.stack([identify(ctx, x, fs, p)[1] for x in ds])
    cols = S if co is not True else S[..., :1]
    if big:
        for b in cols:
            pv = min(lag_p(b.ravel(), m), lag_p(b.T.ravel(), m))
            ctx.check(pv > P_FALSE, "draws-repeat",
                      f"start times of a batch repeat, p={pv:.2g}")
        pv = bins_p(cols, m)
        ctx.check(pv > P_FALSE, "start-not-uniform",
                  f"positions up to {m}, p={pv:.2g}")
        ctx.event("repeat_tests")
    else:
        counts = np.bincount(cols.ravel(), minlength=m)
        ctx.check((counts > 0).all(), "start-never-drawn",
                  f"positions {np.flatnonzero(counts == 0)} of {m}")
        pv = chi2_p(counts)
        ctx.check(pv > P_FALSE, "start-not-uniform", f"p={pv:.2g}")
        ctx.event("start_uniformity_tests")
    ctx.state("long", str(co), big, B, C)


@family("P04", quick=36, thorough=240)
def workers(ctx):
    """the epoch is split over real loader worker processes"""
    sizes, channels, p = setting(ctx)
    nw = ctx.cycle([0, 1, 2, 3, 4, 5])
    n = ctx.choice([1, nw or 2, 2 * nw + 1, ctx.randint(1, 14)])
    pf = ctx.choice([2, 1])
    ctx.params(sizes=sizes, channels=channels, **p, epoch=n, workers=nw)
    with Files(ctx, sizes, channels) as fs:
        ds = build(ctx, fs, channels, p, n)
        kw = dict(prefetch_factor=pf) if nw else {}
        if nw and ctx.slot(4) == 0:
            kw["persistent_workers"] = True
        dl = torch.utils.data.DataLoader(
            ds, batch_size=None, num_workers=nw, **kw)
        sigs = []
        for _ in range(2):
            got = 0
            for x in dl:
                sigs.append(identify(ctx, x, fs, p)[1].tobytes())
                got += 1
            ctx.check(got == n, "epoch-length",
                      f"{got} batches from {nw} workers, announced {n}")
            ctx.check(len(dl) == n, "epoch-length", f"len {len(dl)} != {n}")
            ctx.event("epochs_counted")
        del dl
        npos, q = np.array(sizes) - p["k"] + 1, np.array(sizes) / sum(sizes)
        same = (q**2 / npos).sum() if p["limit"] is None else 1 / min(npos)
        free = -np.log(same) * p["B"]
        if free > 40:  # no two batches should be the same draws
            ctx.check(len(set(sigs)) == len(sigs), "batches-repeated",
                      "workers or epochs deliver the same draws again")
            ctx.event("epochs_compared")
    ctx.state("workers", nw, n % max(nw, 1), n < nw, str(p["co"]))


@family("P04", quick=40, thorough=400)
def refusals(ctx):
    sizes, channels, p = setting(ctx)
    over = ctx.randint(1, 3)
    name = ctx.cycle(["limit", "mode", "mode2"])
    ctx.params(case=name, files=len(sizes))
    with Files(ctx, sizes, channels) as fs:
        a = [fs.fnames, channels, p["k"], p["B"], 2]
        if name == "limit":
            ctx.raises(ValueError, "not-refused", Hdf5TimeSeriesDataset,
                       *a, p["co"], len(sizes) + over)
        else:
            ctx.raises(ValueError, "not-refused", Hdf5TimeSeriesDataset,
                       *a, "file" if name == "mode" else "Files")
    ctx.state(name)
