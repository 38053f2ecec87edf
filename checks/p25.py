"""P25: multi-resolution spectrograms take the maximum of nearest bins."""

import copy
import warnings

import numpy as np
import torch

from ml4gw.transforms import MultiResolutionSpectrogram
from vlib.core import family

TECHNIQUE = ("output monitor: every output bin recomputed from a numpy "
             "short-time Fourier transform of each resolution; settings that "
             "must be refused are offered")
NOTE = ("The normalised spectrograms are recomputed in double precision "
        "without torch; the bin map is evaluated in integers.")
RULE = ("seeded random sets of resolutions, lengths, rates, shapes and "
        "signals; distinct by number of resolutions, options, shapes")
ASSUMPTIONS = ["hann windows, and other windows through window_fn"]
REQUIRED = {"large": 10, "grids_checked": 300, "bins_checked": 200000, "single": 20,
            "refusals": 100, "independence": 40}


def hann(n):
    return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)


def spec(x, n_fft=400, win_length=None, hop_length=None, power=2.0, pad=0,
         center=True, window="hann", onesided=True):
    """normalised spectrogram of x (…, T) -> (…, F, N), in double"""
    win_length = win_length or n_fft
    hop = hop_length or win_length // 2
    w = {"hann": hann(win_length), "ones": np.ones(win_length),
         "hamming": 0.54 - 0.46 * np.cos(
             2 * np.pi * np.arange(win_length) / win_length)}[window]
    full = np.zeros(n_fft)
    left = (n_fft - win_length) // 2
    full[left : left + win_length] = w
    if pad:
        x = np.pad(x, [(0, 0)] * (x.ndim - 1) + [(pad, pad)])
    if center:
        x = np.pad(x, [(0, 0)] * (x.ndim - 1) + [(n_fft // 2,) * 2],
                   mode="reflect")
    fr = np.lib.stride_tricks.sliding_window_view(x, n_fft, axis=-1)
    fr = fr[..., ::hop, :] * full
    S = (np.fft.rfft(fr) if onesided else np.fft.fft(fr)) / np.sqrt(
        (w**2).sum())
    return np.abs(S).swapaxes(-1, -2) ** power


def settings(ctx, T, S):
    nf = [ctx.choice([8, 16, 32, 64, 20, 50, 33, ctx.randint(4, 80)])
          for _ in range(S)]
    nf = [min(v, T - 1 if T % 2 else T - 2, 2 * T - 4) for v in nf]
    nf = [max(v, 4) for v in nf]
    out = {"n_fft": nf}
    one = {}
    if ctx.rng.random() < 0.5:
        out["win_length"] = [max(2, ctx.randint(v // 2, v)) for v in nf]
    wl = out.get("win_length", nf)
    if ctx.rng.random() < 0.5:
        out["hop_length"] = [ctx.randint(1, max(w, 1)) for w in wl]
    if ctx.rng.random() < 0.4:
        out["power"] = [ctx.choice([1.0, 2.0, 1.5]) for _ in nf]
    elif ctx.rng.random() < 0.3:
        one["power"] = [1.0]
    if ctx.rng.random() < 0.2:
        out["pad"] = [ctx.randint(0, 5) for _ in nf]
    if ctx.rng.random() < 0.2:
        one["center"] = [False]
    if ctx.rng.random() < 0.2:
        one["onesided"] = [False]
    win = ctx.choice(["hann", "hann", "ones", "hamming"])
    if win != "hann":
        one["window_fn"] = [{"ones": torch.ones,
                             "hamming": torch.hamming_window}[win]]
    if ctx.rng.random() < 0.3:
        out["normalized"] = [True] * S
    elif ctx.rng.random() < 0.3:
        one["normalized"] = [True]
    return out, one, win


def signal(ctx, *shape):
    n = shape[-1]
    x = ctx.rng.standard_normal(shape)
    kind = ctx.choice(["noise", "chirp", "impulse", "tone"])
    t = np.arange(n)
    if kind == "chirp":
        x = 0.1 * x + np.cos(np.pi * 0.4 * t**2 / n)
    if kind == "impulse":
        x = 0.01 * x
        x[..., ctx.randint(0, n - 1)] += 10
    if kind == "tone":
        x = 0.1 * x + np.cos(ctx.uniform(0.1, 3) * t + 1)
    return x


@family("P25", quick=350, thorough=7000, priority=1)
def combined(ctx):
    S = ctx.cycle([2, 3, 1, 2, 4, 8, 2, 9])
    fs = ctx.choice([16, 64, 100, 128, 250, 1024])
    T = ctx.choice([ctx.randint(100, 300), ctx.randint(20, 60),
                    ctx.randint(200, 700)])
    lead = ctx.choice([(1, 1), (2, 2), (1, 3), (3, 1)])
    big = {5: "length", 12: "batch", 17: "batch"}.get(ctx.slot(20))
    if big == "length":
        S = ctx.choice([1, 2, 3])
        T = ctx.choice([2048, 4097, 8192, ctx.randint(1500, 9000)])
        lead = ctx.choice([(1, 1), (1, 2)])
    elif big:
        T = ctx.randint(100, 250)
        S = min(S, 4)
        lead = ctx.choice([(17, 2), (1, 9), (33, 1), (65, 1), (3, 12)])
    many, one, win = settings(ctx, T, S)
    if big == "length":
        k = ctx.choice([4, 8, 11])
        many = {n: [v * k if n in ("n_fft", "win_length", "hop_length") else v
                    for v in vs] for n, vs in many.items()}
        ctx.event("large")
    dtype = ctx.choice([torch.float32, torch.float32, torch.float64])
    ctx.params(S=S, fs=fs, T=T, lead=lead, many=many, one=list(one), win=win,
               dtype=str(dtype))
    kw = {**many, **one}
    keep = copy.deepcopy({k: v for k, v in kw.items() if k != "window_fn"})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = ctx.call(MultiResolutionSpectrogram, T / fs, fs, **kw)
    ctx.check(all(kw[k] == v for k, v in keep.items()), "input_altered",
              "settings altered")
    if dtype == torch.float64:
        m = m.double()
    x = torch.tensor(signal(ctx, *lead, T), dtype=dtype)
    xc = x.clone()
    out = ctx.call(m, x)
    ctx.check(torch.equal(x, xc), "input_altered", "input altered")
    specs = []
    for k in range(S):
        o = {n: v[k] for n, v in many.items() if n != "normalized"}
        o.update({n: v[0] for n, v in one.items()
                  if n not in ("normalized", "window_fn")})
        specs.append(spec(x.double().numpy(), window=win, **o))
    M = max(s.shape[-2] for s in specs)
    N = max(s.shape[-1] for s in specs)
    ctx.need(tuple(out.shape) == (*lead, M, N), "shape",
             f"{tuple(out.shape)} expected {(*lead, M, N)}")
    want = np.full((*lead, M, N), -np.inf)
    for s in specs:
        F, L = s.shape[-2:]
        i = np.arange(M) * F // M
        j = np.arange(N) * L // N
        want = np.maximum(want, s[..., i[:, None], j[None]])
    e = 2e-6  # the window is made in single precision either way
    top = np.sqrt(want.max()) if want.max() > 0 else 1
    ctx.close(out, want, "bins", f"{S} resolutions", rtol=40 * e,
              atol=20 * e * max(top, top**2), dtype=dtype)
    ctx.event("grids_checked")
    ctx.event("bins_checked", want.size)
    if S == 1:
        ctx.event("single")
    if ctx.slot(4) == 0:
        b, c = (ctx.randint(0, v - 1) for v in lead)
        wild = torch.full_like(x, ctx.choice([1e6, float("nan"), 0.0]))
        wild[b, c] = x[b, c]
        ctx.close(ctx.call(m, wild)[b, c], out[b, c], "independence",
                  "another series leaks in", rtol=1e-5, atol=1e-6 * float(
                      out.abs().max()))
        ctx.event("independence")
        ctx.equal(ctx.call(m, x), out, "repeat", "a second call differs")
    bad = ctx.choice([-1, 1, 2, -3])
    ctx.raises(ValueError, "wrong_length", m, torch.zeros(*lead, T + bad,
                                                          dtype=dtype),
               msg=f"{T + bad} samples for {T}")
    ctx.event("refusals")
    ctx.state("grid", S, sorted(many), sorted(one), win, lead, M > N)


@family("P25", quick=100, thorough=500)
def refusals(ctx):
    kind = ctx.cycle(["unnormalised", "mixed", "lengths", "lengths2",
                      "lengths3", "two_and_four"])
    S = ctx.choice([2, 3, 4, 8])
    kw = {"n_fft": [16] * S}
    if kind == "unnormalised":
        kw["normalized"] = [False]
    elif kind == "mixed":
        kw["normalized"] = [True] * S
        kw["normalized"][ctx.randint(0, S - 1)] = False
    elif kind == "lengths":
        kw["hop_length"] = [4] * (S + 1)
    elif kind == "lengths2":
        kw["hop_length"] = [4] * (S + 1)
        kw["normalized"] = [True] * S
    elif kind == "lengths3":
        kw["hop_length"] = [4] * (2 * S)
        kw["normalized"] = [True] * (2 * S)
    else:
        kw["hop_length"] = [4] * (2 * S)
    ctx.params(kind=kind, S=S)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises(ValueError, f"refuse_{kind}", MultiResolutionSpectrogram,
                   1, 128, **kw, msg=f"{kw}")
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        ctx.call(MultiResolutionSpectrogram, 1, 128, n_fft=[16] * S)
    ctx.check(any(issubclass(w.category, RuntimeWarning) and "Combining" in
                  str(w.message) for w in caught) == (S > 3), "warning",
              "warning for more than three")
    ctx.event("refusals")
    ctx.state("refuse", kind, S)
