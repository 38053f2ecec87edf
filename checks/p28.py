"""P28: waveform banks keep polarizations and parameters together."""

import copy
import io
import pickle

import numpy as np
import torch

from ml4gw.augmentations import SignalInverter
from ml4gw.gw import compute_observed_strain, get_ifo_geometry
from ml4gw.transforms import WaveformProjector, WaveformSampler
from vlib import stats
from vlib.core import family

TECHNIQUE = ("value-identity monitor: every sample and parameter encodes its "
             "bank entry, so pairing is read off exactly over draw "
             "histories; exact statistical monitors for equal likelihood; "
             "differential monitor of the projection module against direct "
             "projection over save, load, copy and precision histories")
NOTE = ("Statistical verdicts have a false alarm probability of 1e-10 each; "
        "projection is compared bit for bit.")
RULE = ("seeded random bank sizes, polarization sets, parameter widths, "
        "draw sequences, detector lists and module histories; distinct by "
        "those classes")
ASSUMPTIONS = ["torch's random generator is sound",
               "the projection functions themselves are judged by P11"]
REQUIRED = {"large": 40, "draws": 8000, "pairs": 4000, "whole_bank": 100,
            "too_many": 150, "mismatched": 60, "likelihood": 30,
            "projected": 200, "history_save": 20, "history_pickle": 20,
            "history_double": 20, "history_load_other": 20,
            "bank_untouched": 100}

POLS = ["plus", "cross", "breathing", "hp", "x_mode", "L"]


def bank(ctx, n, T, pols, dtype):
    """sample k of polarization p of entry i: a unique code"""
    out = {}
    for p, name in enumerate(pols):
        code = (torch.arange(n)[:, None] * 1000 + torch.arange(T)[None]
                + 0.125 * (p + 1))
        if dtype == torch.float32 and n * 1000 + T >= 2**20:
            code = code.double()  # (kept exactly only in double precision)
            dtype = torch.float64
        out[name] = code.to(dtype) if ctx.rng.random() < 0.8 else \
            code.t().contiguous().t().to(dtype)
    return out


@family("P28", quick=300, thorough=6000, priority=1)
def pairing(ctx):
    n = ctx.choice([1, 2, 3, ctx.randint(2, 30), ctx.randint(30, 400)])
    T = ctx.choice([1, 2, ctx.randint(2, 40)])
    k = ctx.randint(1, 4)
    if ctx.slot(20) == 7:
        n, T = ctx.choice([1024, 2049, ctx.randint(500, 6000)]), \
            ctx.randint(1, 9)
        ctx.event("large")
    elif ctx.slot(20) == 13:
        n, T = ctx.randint(1, 9), ctx.choice([4096, ctx.randint(500, 9000)])
        ctx.event("large")
    if ctx.slot(10) == 4:
        k = ctx.randint(5, 6)
    pols = list(ctx.rng.permutation(POLS)[:k])
    width = ctx.choice([None, 1, 2, ctx.randint(1, 9), ctx.randint(10, 40)])
    dtype = ctx.choice([torch.float32, torch.float64])
    ctx.params(n=n, T=T, pols=pols, width=width, dtype=str(dtype))
    waves = bank(ctx, n, T, pols, dtype)
    pars = None
    if width:
        pdt = ctx.choice([torch.float32, torch.float64, torch.int64])
        pars = (torch.arange(n)[:, None] * 64 + torch.arange(width)).to(pdt)
    keep = {name: v.clone() for name, v in waves.items()}
    pkeep = None if pars is None else pars.clone()
    if pars is None and ctx.rng.random() < 0.5:
        m = ctx.call(WaveformSampler, **waves)
    else:
        m = ctx.call(WaveformSampler, parameters=pars, **waves)
    for _ in range(ctx.randint(2, 6)):
        kind = ctx.choice(["all", "one", "some", "full", "none", "too_many"])
        if kind == "too_many":
            ctx.raises(ValueError, "too_many", m,
                       n + ctx.choice([1, 2, 10 * n]), msg=f"bank of {n}")
            ctx.event("too_many")
            continue
        N = {"all": -1, "one": 1, "full": n, "none": 0,
             "some": ctx.randint(1, n)}[kind]
        got = ctx.call(m, N)
        if pars is not None:
            ctx.need(isinstance(got, tuple) and len(got) == 2, "result",
                     "parameters missing")
            got, rows = got
        ctx.need(isinstance(got, dict) and set(got) == set(pols), "result",
                 f"polarizations {list(got)} of {pols}")
        num = n if N == -1 else N
        for name in pols:
            ctx.need(tuple(got[name].shape) == (num, T), "shape",
                     f"{tuple(got[name].shape)} for {num} x {T}")
        idx = (got[pols[0]][:, 0].double() / 1000).floor().long()
        if kind == "all":
            ctx.check(bool((idx == torch.arange(n)).all()), "order",
                      "the whole bank is not in order")
            ctx.event("whole_bank")
        if num:
            ctx.need(0 <= int(idx.min()) and int(idx.max()) < n, "unaltered",
                     "value not from the bank")
        for name in pols:
            ctx.equal(got[name], keep[name][idx], "pairing",
                      f"{name} is not that of the entry drawn")
        if pars is not None:
            ctx.equal(rows, pkeep[idx], "parameters",
                      "parameter rows are not those of the entries drawn")
            ctx.event("pairs", num)
        ctx.event("draws", num)
        if num and ctx.rng.random() < 0.6:
            # what a training loop does next: change the drawn batch
            for name in pols:
                SignalInverter(1.0)(got[name])
                got[name].mul_(3)
            if pars is not None:
                rows.zero_()
            again = ctx.call(m, -1)
            if pars is not None:
                again, rows = again
                ctx.equal(rows, pkeep, "bank_changed",
                          "parameters of the bank changed with a batch")
            for name in pols:
                ctx.equal(again[name], keep[name], "bank_changed",
                          "the bank changed with a batch drawn from it")
            ctx.event("bank_untouched")
    ctx.state("pair", min(n, 4), min(T, 3), k, width is None, str(dtype))


@family("P28", quick=80, thorough=600)
def mismatched(ctx):
    kind = ctx.cycle(["polarization", "parameters", "both", "longer_params"])
    n, T = ctx.randint(1, 20), ctx.randint(1, 10)
    pols = list(ctx.rng.permutation(POLS)[: ctx.randint(2, 5)])
    waves = {p: torch.randn(n, T) for p in pols}
    pars = torch.randn(n, 3)
    other = n + ctx.choice([1, 3, -1 if n > 1 else 2])
    if kind in ("polarization", "both"):
        waves[pols[ctx.randint(0, len(pols) - 1)]] = torch.randn(other, T)
    if kind in ("parameters", "both"):
        pars = torch.randn(other, 3)
    if kind == "longer_params":
        pars = torch.randn(n + ctx.randint(1, 5), 3)
        waves = {p: waves[p] for p in pols[: ctx.randint(1, len(pols))]}
    ctx.params(kind=kind, n=n, pols=pols, other=other)
    ctx.raises(ValueError, f"refuse_{kind}", WaveformSampler,
               parameters=pars, **waves, msg=f"{n} against {other}")
    ctx.event("mismatched")
    ctx.state("mismatch", kind, len(pols))


@family("P28", quick=24, thorough=150, priority=1)
def likelihood(ctx):
    """equal likelihood of entries, and independent draws"""
    n = ctx.cycle([2, 3, 5, 10, 40, 100])
    how = ctx.cycle(["one", "full", "some"], 6)
    total = 30000 if ctx.tier == "quick" else 100000
    N = {"one": 1, "full": n, "some": max(1, n // 2)}[how]
    calls = min(total // N, 4000)
    ctx.params(n=n, N=N, calls=calls)
    m = ctx.call(WaveformSampler, plus=torch.arange(n)[:, None].float())
    idx = torch.stack([ctx.call(m, N)["plus"][:, 0] for _ in range(calls)])
    idx = idx.long().numpy()
    ctx.need(idx.min() >= 0 and idx.max() < n, "unaltered", "unknown entry")
    k = np.bincount(idx.ravel(), minlength=n)
    ctx.check(stats.chi2_p(k) > stats.P_FALSE, "likelihood",
              f"draws per entry {k[:10].tolist()}")
    ctx.event("likelihood")
    for j in {0, N - 1}:
        if calls >= 30 * n:
            k = np.bincount(idx[:, j], minlength=n)
            ctx.check(stats.chi2_p(k) > stats.P_FALSE, "likelihood",
                      f"entries of draw {j}: {k[:10].tolist()}")
            ctx.event("likelihood")
    # successive draws, within a call and between calls, coincide 1 in n
    for a, b, what in ((idx[:, :-1], idx[:, 1:], "draws"),
                       (idx[:-1:2], idx[1::2], "calls")):
        a, b = a[:, ::2].ravel(), b[:, ::2].ravel()
        c = min(len(a), len(b))
        if c < 100:
            continue
        same = int((a[:c] == b[:c]).sum())
        ctx.check(stats.binom_p(same, c, 1 / n) > stats.P_FALSE, "repeats",
                  f"{what}: {same} of {c} repeat in a bank of {n}")
        ctx.event("likelihood")
    ctx.event("draws", idx.size)
    ctx.state("likely", n, how)


IFOS = ["H1", "L1", "V1", "K1"]


@family("P28", quick=220, thorough=4000, priority=1)
def projection(ctx):
    ifos = list(ctx.rng.permutation(IFOS)[: ctx.randint(1, 4)])
    if ctx.rng.random() < 0.15:
        ifos = ifos + ifos[:1]
    fs = ctx.choice([256, 1024, 2048, 4096, 1000.0, 16384])
    hist = ctx.cycle(["fresh", "save", "pickle", "double", "copy",
                      "load_other", "double_back", "repeat"])
    pols = list(ctx.rng.permutation(["plus", "cross", "breathing"])
                [: ctx.randint(1, 3)])
    B = ctx.choice([1, 2, 5, 20])
    T = ctx.choice([1, 64, ctx.randint(10, 300)])
    if ctx.slot(20) == 9:
        B, T = ctx.choice([33, 64, 65, 129, 300]), ctx.randint(2, 70)
        ctx.event("large")
    elif ctx.slot(20) == 14:
        B, T = ctx.randint(1, 2), ctx.choice([4096, ctx.randint(500, 20000)])
        ctx.event("large")
    ctx.params(ifos=ifos, fs=fs, hist=hist, pols=pols, B=B, T=T)
    tensors, vertices = get_ifo_geometry(*ifos)
    m = ctx.call(WaveformProjector, ifos, fs)
    dtype = torch.float32

    def inputs():
        dec = torch.asin(torch.tensor(ctx.uniform(-1, 1, B)))
        psi = torch.tensor(ctx.uniform(0, np.pi, B))
        phi = torch.tensor(ctx.uniform(-np.pi, np.pi, B))
        w = {p: ctx.randn(B, T).to(dtype) for p in pols}
        return [v.to(dtype) for v in (dec, psi, phi)], w

    def direct(args, w):
        return compute_observed_strain(
            *args, detector_tensors=tensors, detector_vertices=vertices,
            sample_rate=fs, **w)

    def compare(m, what):
        args, w = inputs()
        got = ctx.call(m, *args, **w)
        want = direct(args, w)
        ctx.need(tuple(got.shape) == (B, len(ifos), T), "shape",
                 f"{tuple(got.shape)}")
        ctx.equal(got, want, "projection", f"{what}: the module differs from "
                  "direct projection")
        ctx.event("projected")

    compare(m, "fresh")
    if hist in ("save", "load_other"):
        f = io.BytesIO()
        torch.save(m.state_dict(), f)
        f.seek(0)
        if hist == "save":
            new = WaveformProjector(ifos, fs)
        else:
            # the saved geometry, not the one constructed, counts
            other = list(ctx.rng.permutation(IFOS))
            other = (other + other)[: len(ifos)]
            new = WaveformProjector(other, fs)
        ctx.call(new.load_state_dict, torch.load(f))
        m = new
    elif hist == "pickle":
        m = pickle.loads(pickle.dumps(m))
        if ctx.rng.random() < 0.5:
            f = io.BytesIO()
            torch.save(m, f)
            f.seek(0)
            m = torch.load(f, weights_only=False)
    elif hist == "copy":
        m = copy.deepcopy(m)
    elif hist in ("double", "double_back"):
        m = m.double()
        tensors, vertices, dtype = tensors.double(), vertices.double(), \
            torch.float64
        if hist == "double_back":
            compare(m, "double")
            m = m.float()
            tensors, vertices, dtype = tensors.float(), vertices.float(), \
                torch.float32
    compare(m, hist)
    if ctx.rng.random() < 0.3:
        m.eval()
        m.requires_grad_(False)
        compare(m, f"{hist}, evaluation")
    ctx.event(f"history_{hist}")
    ctx.state("project", len(ifos), hist, tuple(pols), T == 1)


@family("P28", quick=30, thorough=300)
def pipeline(ctx):
    """draw, then project: parameters and strain belong together"""
    ifos = list(ctx.rng.permutation(IFOS)[: ctx.randint(1, 3)])
    n, T, fs = ctx.randint(3, 30), 128, 1024
    pars = torch.tensor(np.stack([
        np.arcsin(ctx.uniform(-1, 1, n)), ctx.uniform(0, np.pi, n),
        ctx.uniform(-np.pi, np.pi, n), np.arange(n)], 1)).float()
    waves = {p: ctx.randn(n, T) for p in ("plus", "cross")}
    ctx.params(ifos=ifos, n=n)
    sampler = ctx.call(WaveformSampler, parameters=pars, **waves)
    projector = ctx.call(WaveformProjector, ifos, fs)
    got, rows = ctx.call(sampler, ctx.randint(1, n))
    strain = ctx.call(projector, rows[:, 0], rows[:, 1], rows[:, 2], **got)
    tensors, vertices = get_ifo_geometry(*ifos)
    for i, row in enumerate(rows):
        e = int(row[3])
        want = compute_observed_strain(
            *(pars[e : e + 1, j] for j in range(3)),
            detector_tensors=tensors, detector_vertices=vertices,
            sample_rate=fs, **{p: v[e : e + 1] for p, v in waves.items()})
        # one element alone may round a delay differently: compare the
        # strain up to rounding, and up to one sample
        d = min(float((strain[i] - torch.roll(want[0], s, -1)).abs().max())
                for s in (0, 1, -1)) if len(ifos) == 1 else \
            max(min(float((strain[i, j] - torch.roll(want[0, j], s, -1))
                          .abs().max()) for s in (0, 1, -1))
                for j in range(len(ifos)))
        ctx.check(d < 1e-4, "pipeline", "strain is not that of the entry "
                  f"its parameters name: off by {d:.3g}")
        ctx.event("pairs")
    ctx.event("projected")
    ctx.state("pipeline", len(ifos))
