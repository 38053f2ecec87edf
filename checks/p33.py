"""P33: evaluation neither alters its inputs nor remembers earlier calls."""

import copy
import io
import pickle
import random
import sys
import threading
import time
import types

import numpy as np
import torch

from ml4gw import distributions, gw, spectral, transforms
from ml4gw.nn.autoencoder import ConvolutionalAutoencoder
from ml4gw.nn.resnet.resnet_1d import ResNet1D
from ml4gw.nn.resnet.resnet_2d import ResNet2D
from ml4gw.waveforms import IMRPhenomD
from ml4gw.waveforms.conversion import (
    chirp_mass_and_mass_ratio_to_components,
)
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator
from vlib import ops as O
from vlib.core import REPO, family

TECHNIQUE = ("runtime monitors on every registered public operation: byte "
             "snapshots of arguments and saved state around each call, a "
             "differential history checker (used module against a pristine "
             "copy), and a thread stress whose interleavings are forced by "
             "pauses injected between lines of the library")
NOTE = ("Every operation of the P32 registry plus the Q scan, time-domain "
        "generation, distributions and functional spectra. Augmentations, "
        "fitting and training mode are outside the statement; sampling is "
        "not compared between threads because the generator is shared.")
RULE = ("seeded random choice of operation configuration, history of calls "
        "and thread schedule; distinct by operation, history step and "
        "interleaving")
ASSUMPTIONS = ["repeated identical calls agree within rounding (the vendor "
               "libraries may choose another summation order when memory is "
               "aligned differently)"]
EXTRA = {}


def extra(fn):
    EXTRA[fn.__name__] = fn
    return fn


@extra
def q_scan(ctx):
    B, C, fs, T = O.size(ctx), ctx.randint(1, 2), 128, 2
    m = transforms.QScan(
        T, fs, (12, 16), qrange=[4, 10], frange=[10, 40], mismatch=0.1,
        interpolation_method=ctx.choice(["bicubic", "bilinear", "spline"]))
    norm = ctx.choice(["median", "mean", None])
    search = ctx.choice([None, [12, 30]])
    x = O.data(ctx, B, C, fs * T, dtype=O.F32)
    return O.Op(lambda x: [(m(x, search, norm), 0, 1)], {"x": (x, 0, 1)}, m,
                tol=1e-3)


@extra
def td_generator(ctx):
    B = ctx.randint(1, 3)
    m = TimeDomainCBCWaveformGenerator(IMRPhenomD(), 512, 2.0, 30, 30, 0.3)
    mc = torch.tensor(ctx.uniform(20, 50, B))
    q = torch.tensor(ctx.uniform(0.3, 1, B))
    m1, m2 = chirp_mass_and_mass_ratio_to_components(mc, q)
    s1, s2 = (torch.tensor(ctx.uniform(-0.5, 0.5, B)) for _ in range(2))
    p = {"mass_1": m1, "mass_2": m2, "chirp_mass": mc, "mass_ratio": q,
         "s1z": s1, "s2z": s2, "chi1": s1.clone(), "chi2": s2.clone(),
         "distance": torch.tensor(ctx.uniform(100, 900, B)),
         "phic": torch.tensor(ctx.uniform(0, 6, B)),
         "inclination": torch.tensor(ctx.uniform(0, 3, B))}

    def run(**v):
        return [(t, 0, None) for t in m(**v)]

    return O.Op(run, {k: (v, 0, None) for k, v in p.items()}, m, tol=1e-6,
                refuse=(RuntimeError, ValueError))


@extra
def log_prob(ctx):
    d, lo, hi = ctx.choice([
        (distributions.Cosine(), -1.5, 1.5),
        (distributions.Sine(), 0.1, 3.0),
        (distributions.LogUniform(2.0, 50.0), 2.1, 49),
        (distributions.LogNormal(3.0, 0.5, 0.1), 1, 20),
        (distributions.PowerLaw(1.0, 10.0, -2.0), 1.1, 9.9),
        (distributions.UniformComovingVolume(0.1, 0.9), 0.11, 0.89),
        (distributions.RateEvolution(lambda z: 1 / (1 + z), 0.1,
                                     0.9), 0.11, 0.89)])
    x = torch.tensor(ctx.uniform(lo, hi, O.size(ctx))).float()
    return O.Op(lambda x: [(d.log_prob(x), 0, None)], {"x": (x, 0, None)},
                refuse=(ValueError,))


@extra
def functional_density(ctx):
    dt = O.dtype_of(ctx)
    B, C = O.size(ctx), ctx.randint(1, 3)
    n, step = 64, ctx.choice([32, 16, 64])
    win = torch.hann_window(n, dtype=dt)
    scale = 1 / (64 * (win**2).sum())
    fast = ctx.rng.random() < 0.5
    avg = ctx.choice(["mean", "median"])

    def run(x, win):
        fn = (spectral.fast_spectral_density if fast
              else spectral.spectral_density)
        kw = {} if fast else {"average": avg}
        if fast:
            kw["average"] = avg
        return [(fn(x, nperseg=n, nstride=step, window=win[0], scale=scale,
                    **kw), 0, 1)]

    x = O.data(ctx, B, C, 64 * ctx.randint(4, 7), dtype=dt)
    return O.Op(run, {"x": (x, 0, 1), "win": (win[None], None, None)})


@extra
def normalization(ctx):
    dt = O.dtype_of(ctx)
    B, C, T = O.size(ctx), ctx.randint(1, 3), 128
    psd = torch.tensor(ctx.uniform(0.5, 2, (B, C, T // 2 + 1))).to(dt)
    return O.Op(lambda x, psd: [(spectral.normalize_by_psd(x, psd, 64, 16),
                                 0, 1)],
                {"x": (O.data(ctx, B, C, T, dtype=dt), 0, 1),
                 "psd": (psd, 0, 1)})


@extra
def medians(ctx):
    dt = O.dtype_of(ctx)
    x = O.data(ctx, O.size(ctx), 3, ctx.randint(1, 12), dtype=dt)
    return O.Op(lambda x: [(spectral.median(x, -1), 0, 1)],
                {"x": (x, 0, 1)})


@extra
def polarisations(ctx):
    dt = O.dtype_of(ctx)
    B = O.size(ctx)
    fn = ctx.choice([gw.plus, gw.cross, gw.outer, gw.breathing])
    return O.Op(lambda m, n: [(fn(m, n), 0, None)],
                {"m": (O.data(ctx, B, 3, dtype=dt), 0, None),
                 "n": (O.data(ctx, B, 3, dtype=dt), 0, None)})


ALL = {**O.OPS, **EXTRA}
OPERATIONS = list(ALL)
STEPS = ["repeat", "layout", "other_batch", "other_dtype", "other_length",
         "bad_shape", "hostile", "inference", "grad", "overwrite_output",
         "one_argument", "in_place", "deepcopy", "pickle", "save"]
REQUIRED = {"calls_watched": 6000, "arguments_compared": 10000,
            "states_compared": 1500, "concurrent_answers": 500,
            "line_switches": 3000, "constructor_arguments": 60,
            **{f"op_{n}": 8 for n in OPERATIONS},
            **{f"step_{s}": 100 for s in STEPS},
            **{f"thread_{n}": 1 for n in OPERATIONS}}


# ------------------------------------------------------------- machinery
def rebind(run, old, new):
    """the operation bound to another module"""
    if old is None:
        return run
    cells = tuple(types.CellType(new) if c.cell_contents is old else c
                  for c in run.__closure__ or ())
    return types.FunctionType(run.__code__, run.__globals__, run.__name__,
                              run.__defaults__, cells)


def bits(t):
    t = t.detach().contiguous()
    if t.is_complex():
        t = torch.view_as_real(t).contiguous()
    return t.numpy().tobytes()


def state(m):
    if m is None:
        return {}
    return {k: (tuple(v.shape), str(v.dtype), bits(v))
            for k, v in m.state_dict().items()}


def unchanged(ctx, inp, before, what):
    for k, t in inp.items():
        ctx.check(tuple(t.shape) == before[k][0] and bits(t) == before[k][1],
                  "argument_modified", f"{what}: argument {k} was modified")
        ctx.event("arguments_compared")


def watched(ctx, op, run, module, inp, what, settle=True):
    """One call with its arguments and module watched; returns the outputs
    or the exception."""
    before = {k: (tuple(t.shape), bits(t)) for k, t in inp.items()}
    saved = state(module)
    mode = module.training if module is not None else None
    dt = torch.get_default_dtype()
    try:
        out = [t for t, *_ in run(**inp)]
    except Exception as e:
        out = e
    unchanged(ctx, inp, before, what)
    if module is not None:
        now = state(module)
        ctx.check(list(now) == list(saved), "state_keys",
                  f"{what}: entries of the saved state changed",
                  before=list(saved), after=list(now))
        for k in saved:
            ctx.check(now.get(k) == saved[k], "state_modified",
                      f"{what}: {k} of the saved state changed")
        ctx.check(module.training == mode, "mode", f"{what}: mode changed")
        ctx.event("states_compared")
    ctx.check(torch.get_default_dtype() == dt, "global_state",
              f"{what}: default precision changed")
    ctx.event("calls_watched")
    return out


def same(ctx, op, got, want, kind, what):
    if isinstance(want, Exception) or isinstance(got, Exception):
        ctx.check(type(got) is type(want), kind,
                  f"{what}: {got!r:.150} for {want!r:.150}")
        ctx.event("refusals_compared")
        return
    ctx.need(len(got) == len(want), kind, f"{what}: number of outputs")
    for a, b in zip(got, want, strict=True):
        ctx.need(a.shape == b.shape and a.dtype == b.dtype, kind,
                 f"{what}: {tuple(a.shape)} {a.dtype} for {tuple(b.shape)} "
                 f"{b.dtype}")
        a, b = a.detach(), b.detach()
        if a.is_complex():
            a, b = torch.view_as_real(a), torch.view_as_real(b)
        a, b = a.double(), b.double()
        eq = (a == b) | (a.isnan() & b.isnan())
        fin = b[torch.isfinite(b)].abs()
        top = float(fin.max()) if fin.numel() else 0.0
        err = (a - b).abs()
        bad = ~eq & ~(err <= op.tol * top + op.atol)
        ctx.check(not bool(bad.any()), kind, f"{what}: {int(bad.sum())} of "
                  f"{bad.numel()} values differ", got=a[bad][:3].tolist(),
                  want=b[bad][:3].tolist())
        ctx.event("values_compared", a.numel())


def strided(t):
    """the same values, spread out in memory"""
    if t.ndim == 0 or not t.numel():
        return t.clone()
    big = torch.zeros(*t.shape[:-1], t.shape[-1] * 2, dtype=t.dtype)
    v = big[..., ::2]
    v.copy_(t)
    if t.ndim > 1:
        w = torch.empty(t.transpose(0, -1).shape, dtype=t.dtype)
        w = w.transpose(0, -1)
        w.copy_(t)
        return w if t.shape[0] % 2 else v
    return v


def interlude(ctx, op, step):
    """other inputs for the same operation"""
    inp = {k: t.clone() for k, (t, _, _) in op.inputs.items()}
    if step == "other_batch":
        n = ctx.randint(1, 9)
        idx = torch.tensor(ctx.rng.integers(0, op.batch, n))
        return {k: t if op.inputs[k][1] is None
                else t.index_select(op.inputs[k][1], idx)
                for k, t in inp.items()}
    if step == "other_dtype":
        new = O.F64 if op.dtype == O.F32 else O.F32
        return {k: t.to(new) if t.is_floating_point() else t
                for k, t in inp.items()}
    if step == "other_length":
        return {k: t[..., : max(1, t.shape[-1] // 2)] if t.ndim > 2 else t
                for k, t in inp.items()}
    if step == "bad_shape":
        return {k: t[None, None, None] for k, t in inp.items()}
    if step == "hostile":
        v = ctx.choice(O.HOSTILE)
        v = {"nan": float("nan"), "inf": float("inf"), "zero": 0.0,
             "huge": 1e25, "tiny": 1e-30}[v]
        return {k: torch.full_like(t, v) if t.is_floating_point() else t
                for k, t in inp.items()}
    if step == "one_argument":
        k = ctx.choice([k for k, t in inp.items() if t.is_floating_point()])
        return {**inp, k: altered(ctx, inp[k], op.inputs[k][1])}
    return inp


def altered(ctx, t, batch):
    """the same argument with other values"""
    if batch is not None and t.shape[batch] > 1 and ctx.slot(2):
        return t.roll(1, batch)
    return t * ctx.uniform(0.9, 0.99)


@family("P33", quick=900, thorough=14000, priority=1)
def histories(ctx):
    name = ctx.cycle(OPERATIONS)
    op = ALL[name](ctx)
    pristine = copy.deepcopy(op.module)
    ctx.params(op=name, dtype=str(op.dtype),
               shapes={k: tuple(v[0].shape) for k, v in op.inputs.items()})
    used, run = op.module, op.run

    def fresh():
        return rebind(op.run, op.module, copy.deepcopy(pristine))

    inp = interlude(ctx, op, "repeat")
    with torch.no_grad():
        base = watched(ctx, op, run, used, inp, f"{name} first call")
    if isinstance(base, Exception):
        ctx.violate("exception", f"{name}: {base!r}")
        return
    base = [t.clone() for t in base]
    steps = list(ctx.rng.permutation(STEPS)[: ctx.randint(4, 8)])
    for step in steps:
        what = f"{name} {step}"
        if step in ("deepcopy", "pickle", "save"):
            if used is None:
                continue
            if step == "deepcopy":
                new = ctx.call(copy.deepcopy, used)
            elif step == "pickle":
                new = pickle.loads(ctx.call(pickle.dumps, used))
            else:
                f = io.BytesIO()
                ctx.call(torch.save, used, f)
                f.seek(0)
                new = torch.load(f, weights_only=False)
                clean = copy.deepcopy(pristine)
                ctx.call(clean.load_state_dict, used.state_dict())
            ctx.check(state(new) == state(used), "copy_state",
                      f"{what}: the copy's saved state differs")
            run = rebind(op.run, op.module, new)
            used = new
        elif step == "layout":
            other = {k: strided(v) for k, v in inp.items()}
            with torch.no_grad():
                got = watched(ctx, op, run, used, other, what)
            same(ctx, op, got, base, "layout", what)
        elif step == "overwrite_output":
            with torch.no_grad():
                got = watched(ctx, op, run, used, interlude(ctx, op, step),
                              what)
                for t in got if isinstance(got, list) else []:
                    try:
                        t.fill_(7)
                    except RuntimeError:
                        ctx.event("outputs_not_writable")
        elif step == "in_place":
            # the very same tensor objects, holding other values
            held = interlude(ctx, op, step)
            with torch.no_grad():
                watched(ctx, op, run, used, held, what)
                k = ctx.choice([k for k, t in held.items()
                                if t.is_floating_point()])
                held[k].copy_(altered(ctx, held[k], op.inputs[k][1]))
                copies = {j: t.clone() for j, t in held.items()}
                got = watched(ctx, op, run, used, held, what)
                ref = watched(ctx, op, fresh(), None, copies, what)
                same(ctx, op, got, ref, "in_place", what)
        elif step == "inference":
            with torch.inference_mode():
                got = watched(ctx, op, run, used, interlude(ctx, op, step),
                              what)
                same(ctx, op, got, base, "inference", what)
        elif step == "grad":
            leaves = {k: v.clone().requires_grad_(v.is_floating_point())
                      for k, v in inp.items()}
            twin = {k: v.clone().requires_grad_(v.is_floating_point())
                    for k, v in inp.items()}
            got = watched(ctx, op, run, used, leaves, what)
            ref = watched(ctx, op, fresh(), None, twin, what)
            same(ctx, op, got, ref, "grad", what)
            if isinstance(got, list) and any(t.requires_grad for t in got):
                w = [torch.view_as_real(t) if t.is_complex() else t
                     for t in (*got, *ref)]
                n = len(w) // 2
                g, r = (torch.autograd.grad(
                    [t.double().sum() for t in ts if t.requires_grad],
                    [v for v in ls.values() if v.requires_grad],
                    allow_unused=True)
                    for ts, ls in ((w[:n], leaves), (w[n:], twin)))
                for a, b in zip(g, r, strict=True):
                    if (a is None) or (b is None):
                        ctx.check(a is b, "grad", f"{what}: gradient")
                    elif torch.isfinite(b).all():
                        e = float((a - b).abs().max())
                        top = float(b.abs().max())
                        ctx.check(e <= 100 * op.tol * top + op.atol, "grad",
                                  f"{what}: gradient differs from a fresh "
                                  f"module's by {e:.3g} of {top:.3g}")
                ctx.event("gradients_compared")
        else:
            if step == "hostile":
                for v in (0.0, float("nan"), float("inf"), -1.0, 1e-30,
                          1e25):
                    # all of an argument, or a value here and there
                    some = {k: torch.full_like(t, v) if ctx.rng.random() < 0.3
                            else t.masked_fill(torch.rand(t.shape) < 0.2, v)
                            for k, t in inp.items() if t.is_floating_point()}
                    with torch.no_grad():
                        watched(ctx, op, run, used, {**inp, **some},
                                f"{what} {v}")
            other = interlude(ctx, op, step)
            with torch.no_grad():
                got = watched(ctx, op, run, used, other, what)
                if step == "repeat":
                    same(ctx, op, got, base, "repeat", what)
                elif op.module is not None:
                    ref = watched(ctx, op, fresh(), None, other, what)
                    same(ctx, op, got, ref, "history",
                         f"{what}, used against fresh module")
        with torch.no_grad():
            again = watched(ctx, op, run, used, inp, f"{what} and again")
        same(ctx, op, again, base, "memory",
             f"{name}: first call repeated after {step}")
        ctx.event(f"step_{step}")
        ctx.state("step", name, step)
    if used is not None:
        ctx.check(state(used) == state(pristine), "state_modified",
                  f"{name}: saved state changed over the history {steps}")
    ctx.event(f"op_{name}")
    ctx.state("history", name, tuple(steps[:3]))


# --------------------------------------------------------------- threads
class Pauses:
    """Gives the processor away between lines of the library, so that other
    threads run in between, and records the order in which lines ran."""

    def __init__(self, seed, prob):
        self.prob, self.seed = prob, seed
        self.trace, self.local = [], threading.local()

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(REPO):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            r = getattr(self.local, "r", None)
            if r is None:
                r = self.local.r = random.Random(
                    self.seed + threading.current_thread().name)
            self.trace.append((threading.get_ident(), frame.f_lineno))
            if r.random() < self.prob:
                time.sleep(0 if r.random() < 0.8 else 2e-4)
        return self.line


@family("P33", quick=176, thorough=2600)
def threads(ctx):
    name = ctx.cycle(OPERATIONS)
    op = ALL[name](ctx)
    K = ctx.randint(2, 5)
    rounds = 2
    sets = []
    with torch.no_grad():
        for k in range(K):
            idx = torch.tensor(ctx.rng.integers(0, op.batch,
                                                ctx.randint(1, 5)))
            inp = {}
            for key, (t, b, _) in op.inputs.items():
                v = t if b is None else t.index_select(b, idx)
                # different values in every thread where that is harmless
                if b is not None and t.is_floating_point() and t.ndim > 1 \
                        and key not in ("psd",):
                    v = v * (1 + 0.3 * k)
                inp[key] = v.clone()
            pristine = rebind(op.run, op.module, copy.deepcopy(op.module))
            sets.append((inp, [t for t, *_ in pristine(**inp)]))
    ctx.params(op=name, threads=K, shapes=[
        {k: tuple(v.shape) for k, v in s[0].items()} for s in sets])
    prob = ctx.choice([0.02, 0.1, 0.5])
    pauses = Pauses(f"{ctx.seed}/{ctx.i}/", prob)
    saved = state(op.module)
    shots = [{k: (tuple(v.shape), bits(v)) for k, v in s[0].items()}
             for s in sets]
    barrier = threading.Barrier(K)
    results = [[] for _ in range(K)]

    def work(k):
        inp = sets[k][0]
        barrier.wait()
        with torch.no_grad():
            for _ in range(rounds):
                try:
                    results[k].append([t for t, *_ in op.run(**inp)])
                except Exception as e:
                    results[k].append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    threading.settrace(pauses)
    try:
        ts = [threading.Thread(target=work, args=(k,), name=str(k))
              for k in range(K)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
    ctx.need(not any(t.is_alive() for t in ts), "threads_hang",
             f"{name}: {K} threads did not finish")
    for k in range(K):
        for got in results[k]:
            if isinstance(got, Exception):
                ctx.violate("threads", f"{name}: thread {k} raised {got!r}")
                continue
            same(ctx, op, got, sets[k][1], "threads",
                 f"{name}: thread {k} of {K}")
            ctx.event("concurrent_answers")
        unchanged(ctx, sets[k][0], shots[k], f"{name} threads")
    ctx.check(state(op.module) == saved, "state_modified",
              f"{name}: saved state changed by concurrent calls")
    order = [t for t, _ in pauses.trace]
    switches = sum(a != b for a, b in zip(order, order[1:], strict=False))
    ids = {t: i for i, t in enumerate(dict.fromkeys(order))}
    ctx.event("line_switches", switches)
    ctx.event("lines_traced", len(order))
    ctx.event(f"thread_{name}")
    ctx.state("interleaving", name,
              hash(tuple((ids[t], n) for t, n in pauses.trace)))


# ---------------------------------------------------- constructor arguments
def freeze(v):
    if isinstance(v, torch.Tensor):
        return ("t", tuple(v.shape), str(v.dtype), bits(v))
    if isinstance(v, np.ndarray):
        return ("a", v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, dict):
        return ("d", tuple((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, list | tuple):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    return ("v", repr(v))


def constructors(ctx):
    r = ctx.rng
    fs = 128
    bg = O.data(ctx, 2, 16 * fs, dtype=O.F32)
    scaler, snr = transforms.ChannelWiseScaler(2), transforms.SnrRescaler(
        2, fs, 1)
    white = transforms.FixedWhiten(2, 2, fs)
    sched = torch.tensor([[0, 2, 16], [2, 4, 64]])
    x_in, y_in = torch.arange(12).float(), torch.arange(9).float()
    geo = ["H1", "L1", "V1"]
    psd = torch.tensor(ctx.uniform(1, 2, 65)).float()
    wave = {"plus": O.data(ctx, 20, fs, dtype=O.F32)}
    return {
        "QScan": (transforms.QScan, (2, fs, (8, 8)), {
            "qrange": [4, 10], "frange": [0, float("inf")]}),
        "SingleQTransform": (transforms.SingleQTransform, (2, fs, (8, 8)), {
            "q": 5, "frange": [0, float("inf")]}),
        "Spectrogram": (transforms.MultiResolutionSpectrogram, (1, fs), {
            "n_fft": [16, 32], "normalized": [True]}),
        "Decimator": (transforms.Decimator, (64, sched), {}),
        "Heterodyne": (transforms.Heterodyne, (
            64, 2, torch.tensor([5.0, 9.0]), "both"), {}),
        "Projector": (transforms.WaveformProjector, (list(geo), fs), {}),
        "geometry": (gw.get_ifo_geometry, tuple(geo), {}),
        "Autoencoder": (ConvolutionalAutoencoder, (
            2, [3, 4, 6], 3), {"groups": 1}),
        "ResNet1D": (ResNet1D, (2, [1, 1, 1], 3), {
            "stride_type": ["stride", "stride"]}),
        "ResNet2D": (ResNet2D, (2, [1, 1, 1], 3), {
            "stride_type": ["stride", "stride"]}),
        "Spline1D": (transforms.SplineInterpolate1D, (x_in,), {
            "x_out": torch.linspace(0, 11, 20)}),
        "Spline2D": (transforms.SplineInterpolate2D, (x_in, y_in), {
            "x_out": torch.linspace(0, 11, 20),
            "y_out": torch.linspace(0, 8, 7)}),
        "WaveformSampler": (transforms.WaveformSampler, (), {
            **wave, "dec": torch.tensor(r.random(20)).float()}),
        "scaler.fit": (scaler.fit, (bg,), {}),
        "snr.fit": (snr.fit, (bg[0], bg[1]), {"fftlength": 2}),
        "snr.fit psd": (snr.fit, (psd, psd * 2), {}),
        "whiten.fit": (white.fit, (1, bg[0], bg[1]), {
            "fftlength": 2, "highpass": 8}),
        "whiten.fit psd": (white.fit, (1, psd, psd * 2), {}),
        "Cosine": (distributions.Cosine, (torch.tensor(-1.0),
                                          torch.tensor(1.0)), {}),
        "PowerLaw": (distributions.PowerLaw, (torch.tensor(1.0),
                                              torch.tensor(9.0), -2.0), {}),
        "Volume": (distributions.UniformComovingVolume, (0.1, 0.5), {}),
    }


CONSTRUCTORS = 21


@family("P33", quick=126, thorough=1200)
def construction(ctx):
    table = constructors(ctx)
    name = ctx.cycle(list(table))
    fn, args, kw = table[name]
    ctx.params(constructor=name)
    before = freeze(args), freeze(kw)
    ctx.call(fn, *args, **kw)
    ctx.check((freeze(args), freeze(kw)) == before, "constructor_argument",
              f"{name}: an argument was modified", before=before[1],
              after=freeze(kw))
    # the same arguments again make the same object
    again = ctx.call(fn, *args, **kw)
    if isinstance(again, torch.nn.Module):
        third = ctx.call(fn, *copy.deepcopy(args), **copy.deepcopy(kw))
        shapes = [{k: tuple(v.shape) for k, v in m.state_dict().items()}
                  for m in (again, third)]
        ctx.check(shapes[0] == shapes[1], "constructor_history",
                  f"{name}: reused arguments build another module")
    ctx.check((freeze(args), freeze(kw)) == before, "constructor_argument",
              f"{name}: an argument was modified by the second call")
    ctx.event("constructor_arguments")
    ctx.event("calls_watched")
    ctx.state("constructor", name)
