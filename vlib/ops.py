"""A registry of ml4gw's batched public operations, for the metamorphic
monitors of P32 and P33.

A builder returns an Op: ``inputs`` maps a name to ``(tensor, batch axis,
channel axis or None)``; ``run(**tensors)`` calls the public operation and
returns a list of ``(tensor, batch axis, channel axis or None)``.
"""

from __future__ import annotations

import numpy as np
import torch

from ml4gw import gw, spectral, transforms
from ml4gw.nn.autoencoder import (
    AddSkipConnect,
    ConcatSkipConnect,
    ConvolutionalAutoencoder,
)
from ml4gw.nn.norm import GroupNorm1D, GroupNorm1DGetter, GroupNorm2DGetter
from ml4gw.nn.resnet.resnet_1d import BottleneckResNet1D, ResNet1D
from ml4gw.nn.resnet.resnet_2d import BottleneckResNet2D, ResNet2D
from ml4gw.nn.ssm.s4d import S4D, S4Model
from ml4gw.transforms.qtransform import QTile
from ml4gw.utils.slicing import slice_kernels, unfold_windows
from ml4gw.waveforms import IMRPhenomD, IMRPhenomPv2, TaylorF2, conversion
from ml4gw.waveforms.adhoc import Ringdown, SineGaussian
from ml4gw.waveforms.cbc import utils as cbc_utils

OPS = {}
F32, F64 = torch.float32, torch.float64
HOSTILE = ["nan", "inf", "zero", "huge", "tiny"]


class Op:
    def __init__(self, run, inputs, module=None, tol=None, hostile=HOSTILE,
                 channels=False, atol=0.0, exact=False, refuse=()):
        self.run, self.inputs, self.module = run, inputs, module
        dt = [v[0].dtype for v in inputs.values()
              if v[0].dtype.is_floating_point]
        self.dtype = dt[0] if dt else F32
        self.tol = tol or (2e-5 if self.dtype == F32 else 1e-10)
        self.hostile, self.channels = hostile, channels
        self.atol, self.exact = atol, exact
        self.refuse = refuse

    @property
    def batch(self):
        return next(t.shape[b] for t, b, _ in self.inputs.values()
                    if b is not None)

    @property
    def width(self):
        return next(t.shape[c] for t, _, c in self.inputs.values()
                    if c is not None)


def op(fn):
    OPS[fn.__name__] = fn
    return fn


def dtype_of(ctx):
    if getattr(ctx, "double", False):
        return F64
    return ctx.choice([F32, F64])


def size(ctx):
    return ctx.choice([1, 2, 3, 3, 5, 8])


def data(ctx, *shape, dtype):
    """noise with a different size in every series"""
    x = torch.tensor(ctx.rng.standard_normal(shape))
    lead = torch.tensor(10.0 ** ctx.rng.uniform(-1, 1, shape[:-1]))
    return (x * lead[..., None]).to(dtype)


def vec(ctx, B, lo, hi, dtype):
    return torch.tensor(ctx.uniform(lo, hi, B)).to(dtype)


# ---------------------------------------------------------------- waveforms
def cbc(ctx, B):
    mc = torch.tensor(ctx.loguniform(5, 60, B))
    q = torch.tensor(ctx.uniform(0.15, 1, B))
    return {"chirp_mass": mc, "mass_ratio": q,
            "distance": torch.tensor(ctx.uniform(100, 3000, B)),
            "phic": torch.tensor(ctx.uniform(0, 6.2, B)),
            "inclination": torch.tensor(ctx.uniform(0, 3.1, B))}


def wave(ctx, cls, extra):
    B = size(ctx)
    p = cbc(ctx, B)
    for k in extra:
        p[k] = torch.tensor(ctx.uniform(-0.55, 0.55, B))
    f = torch.tensor(np.linspace(20, ctx.choice([256, 600]),
                                 ctx.randint(5, 80)))
    m = cls()
    f_ref = ctx.choice([20.0, 33.0, 60.0])
    if "s1x" in extra and ctx.rng.random() < 0.5:
        p["tc"] = torch.tensor(ctx.uniform(-0.02, 0.02, B))

    def run(**v):
        hc, hp = m(f, f_ref=f_ref, **v)
        return [(hc, 0, None), (hp, 0, None)]

    # spins outside the model's domain are refused
    return Op(run, {k: (v, 0, None) for k, v in p.items()}, m, tol=1e-7,
              refuse=(RuntimeError, ValueError))


@op
def taylor_f2(ctx):
    return wave(ctx, TaylorF2, ["chi1", "chi2"])


@op
def phenom_d(ctx):
    return wave(ctx, IMRPhenomD, ["chi1", "chi2"])


@op
def phenom_p(ctx):
    return wave(ctx, IMRPhenomPv2, ["s1x", "s1y", "s1z", "s2x", "s2y", "s2z"])


@op
def sine_gaussian(ctx):
    B, dt = size(ctx), dtype_of(ctx)
    m = SineGaussian(ctx.choice([512, 1024]), ctx.choice([0.5, 1]))
    p = {"quality": vec(ctx, B, 3, 80, dt), "frequency": vec(ctx, B, 30, 200,
                                                             dt),
         "hrss": vec(ctx, B, 1, 3, dt) * 1e-21, "phase": vec(ctx, B, 0, 6, dt),
         "eccentricity": vec(ctx, B, 0, 0.95, dt)}
    m = m.to(dt)

    def run(**v):
        a, b = m(**v)
        return [(a, 0, None), (b, 0, None)]

    return Op(run, {k: (v, 0, None) for k, v in p.items()}, m,
              tol=1e-3 if dt == F32 else 1e-8)


@op
def ringdown(ctx):
    B, dt = size(ctx), dtype_of(ctx)
    m = Ringdown(ctx.choice([512, 1024]), ctx.choice([0.5, 1])).to(dt)
    p = {"frequency": vec(ctx, B, 50, 400, dt), "quality": vec(ctx, B, 2, 50,
                                                               dt),
         "epsilon": vec(ctx, B, 0.01, 0.1, dt), "phase": vec(ctx, B, 0, 6, dt),
         "inclination": vec(ctx, B, 0, 3, dt),
         "distance": vec(ctx, B, 50, 1000, dt)}

    def run(**v):
        a, b = m(**v)
        return [(a, 0, None), (b, 0, None)]

    return Op(run, {k: (v, 0, None) for k, v in p.items()}, m,
              tol=1e-3 if dt == F32 else 1e-8)


@op
def masses(ctx):
    B, dt = size(ctx), dtype_of(ctx)

    def run(**v):
        return [(t, 0, None) for t in
                conversion.chirp_mass_and_mass_ratio_to_components(**v)]

    return Op(run, {"chirp_mass": (vec(ctx, B, 1, 60, dt), 0, None),
                    "mass_ratio": (vec(ctx, B, 0.1, 1, dt), 0, None)})


@op
def spin_angles(ctx):
    B, dt = size(ctx), F64
    p = {k: vec(ctx, B, 0.2, 2.8, dt) for k in
         ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "phi_ref")}
    for k in ("a_1", "a_2"):
        p[k] = vec(ctx, B, 0.1, 0.9, dt)
    p["mass_1"] = vec(ctx, B, 20, 60, dt)
    p["mass_2"] = vec(ctx, B, 5, 20, dt)

    def run(**v):
        return [(t, 0, None) for t in
                conversion.bilby_spins_to_lalsim(f_ref=30.0, **v)]

    return Op(run, {k: (v, 0, None) for k, v in p.items()}, tol=1e-8)


@op
def time_bounds(ctx):
    B, dt = size(ctx), F64
    p = {"m1": vec(ctx, B, 20, 60, dt) * 2e30, "m2": vec(ctx, B, 5, 20, dt)
         * 2e30, "s1": vec(ctx, B, -0.9, 0.9, dt),
         "s2": vec(ctx, B, -0.9, 0.9, dt), "f": vec(ctx, B, 10, 40, dt)}

    def run(m1, m2, s1, s2, f):
        u = cbc_utils
        t = u.chirp_time_bound(f, m1, m2, s1, s2)
        s = u.final_black_hole_spin_bound(s1, s2)
        out = [t, s, u.merge_time_bound(m1, m2), u.ringdown_time_bound(
            m1 + m2, s), u.frequency_isco(m1, m2),
            u.chirp_start_frequency_bound(t, m1, m2)]
        return [(v, 0, None) for v in out]

    return Op(run, {k: (v, 0, None) for k, v in p.items()})


# --------------------------------------------------------------- projection
def geometry(ctx, dt):
    ifos = list(ctx.rng.permutation(["H1", "L1", "V1", "K1"])
                [: ctx.randint(1, 4)])
    return [t.to(dt) for t in gw.get_ifo_geometry(*ifos)]


@op
def antenna(ctx):
    B, dt = size(ctx), dtype_of(ctx)
    tensors, _ = geometry(ctx, dt)
    modes = list(ctx.rng.permutation(["plus", "cross", "breathing"])
                 [: ctx.randint(1, 3)])

    def run(tensors, **v):
        return [(gw.compute_antenna_responses(
            detector_tensors=tensors[0], modes=modes, **v), 0, 2)]

    inp = {k: (vec(ctx, B, 0.1, 3, dt), 0, None)
           for k in ("theta", "psi", "phi")}
    inp["tensors"] = (tensors[None], None, 1)
    return Op(run, inp, channels=True)


@op
def observed_strain(ctx):
    B, dt = size(ctx), F64
    tensors, vertices = geometry(ctx, dt)
    T, fs = ctx.randint(20, 120), ctx.choice([1024, 4096])
    pols = list(ctx.rng.permutation(["plus", "cross", "breathing"])
                [: ctx.randint(1, 3)])
    inp = {k: (vec(ctx, B, 0.1, 1.4, dt), 0, None)
           for k in ("dec", "psi", "phi")}
    for p in pols:
        inp[p] = (data(ctx, B, T, dtype=dt), 0, None)
    inp["tensors"] = (tensors[None], None, 1)
    inp["vertices"] = (vertices[None], None, 1)

    def run(tensors, vertices, **v):
        return [(gw.compute_observed_strain(
            detector_tensors=tensors[0], detector_vertices=vertices[0],
            sample_rate=fs, **v), 0, 1)]

    return Op(run, inp, channels=True)


@op
def shifting(ctx):
    B, dt = size(ctx), F64
    _, vertices = geometry(ctx, dt)
    T, C = ctx.randint(20, 120), len(vertices)
    inp = {"responses": (data(ctx, B, C, T, dtype=dt), 0, 1),
           "theta": (vec(ctx, B, 0.1, 3, dt), 0, None),
           "phi": (vec(ctx, B, -3, 3, dt), 0, None),
           "vertices": (vertices[None], None, 1)}

    def run(vertices, **v):
        return [(gw.shift_responses(vertices=vertices[0], sample_rate=4096,
                                    **v), 0, 1)]

    return Op(run, inp, channels=True)


@op
def projector(ctx):
    B = size(ctx)
    ifos = list(ctx.rng.permutation(["H1", "L1", "V1", "K1"])
                [: ctx.randint(1, 4)])
    m = transforms.WaveformProjector(ifos, 2048).double()
    inp = {k: (vec(ctx, B, 0.1, 1.4, F64), 0, None)
           for k in ("dec", "psi", "phi")}
    for p in ("plus", "cross"):
        inp[p] = (data(ctx, B, 50, dtype=F64), 0, None)
    return Op(lambda **v: [(m(**v), 0, None)], inp, m)


def snr_inputs(ctx, dt, batched=None):
    B, C, T = size(ctx), ctx.randint(1, 4), 2 * ctx.randint(10, 60)
    r = data(ctx, B, C, T, dtype=dt)
    batched = ctx.rng.random() < 0.4 if batched is None else batched
    psd = torch.tensor(ctx.uniform(0.5, 2, (B, C, T // 2 + 1))).to(dt)
    inp = {"responses": (r, 0, 1)}
    inp["psd"] = (psd, 0, 1) if batched else (psd[:1], None, 1)
    hp = ctx.choice([None, 5.0])
    lp = ctx.choice([None, 50.0])
    return inp, batched, {"sample_rate": 128, "highpass": hp, "lowpass": lp}


@op
def ifo_snr(ctx):
    inp, batched, kw = snr_inputs(ctx, dtype_of(ctx))

    def run(responses, psd):
        psd = psd if batched else psd[0]
        return [(gw.compute_ifo_snr(responses, psd, **kw), 0, 1)]

    return Op(run, inp, channels=True)


@op
def network_snr(ctx):
    inp, batched, kw = snr_inputs(ctx, dtype_of(ctx))

    def run(responses, psd):
        psd = psd if batched else psd[0]
        return [(gw.compute_network_snr(responses, psd, **kw), 0, None)]

    return Op(run, inp)


@op
def reweighting(ctx):
    dt = dtype_of(ctx)
    inp, batched, kw = snr_inputs(ctx, dt)
    B = inp["responses"][0].shape[0]
    inp["target_snrs"] = (vec(ctx, B, 4, 30, dt), 0, None)

    def run(responses, psd, target_snrs):
        psd = psd if batched else psd[0]
        return [(gw.reweight_snrs(responses, target_snrs, psd, **kw), 0, 1)]

    return Op(run, inp)


@op
def snr_rescaler(ctx):
    dt = dtype_of(ctx)
    B, C, T, fs = size(ctx), ctx.randint(1, 3), 128, 128
    m = transforms.SnrRescaler(C, fs, T / fs, highpass=ctx.choice([None, 8]),
                               dtype=dt)
    m.fit(*data(ctx, C, 8 * fs, dtype=dt), fftlength=2)
    m = m.to(dt)
    inp = {"responses": (data(ctx, B, C, T, dtype=dt), 0, None),
           "target_snrs": (vec(ctx, B, 4, 30, dt), 0, None)}

    def run(**v):
        return [(t, 0, None) for t in m(**v)]

    return Op(run, inp, m)


# ----------------------------------------------------------------- spectral
@op
def welch(ctx):
    dt = dtype_of(ctx)
    B, C, fs = size(ctx), ctx.randint(1, 3), 64
    m = transforms.SpectralDensity(
        fs, ctx.choice([1, 0.5]), overlap=ctx.choice([None, 0.25]),
        average=ctx.choice(["mean", "median"]),
        fast=ctx.rng.random() < 0.5).to(dt)
    x = data(ctx, B, C, fs * ctx.randint(4, 8), dtype=dt)
    return Op(lambda x: [(m(x), 0, 1)], {"x": (x, 0, 1)}, m, channels=True)


@op
def cross_spectrum(ctx):
    dt = dtype_of(ctx)
    B, C, fs = size(ctx), ctx.randint(1, 3), 64
    m = transforms.SpectralDensity(
        fs, 1, average=ctx.choice(["mean", "median"]), fast=True).to(dt)
    n = fs * ctx.randint(4, 8)
    x = data(ctx, B, C, n, dtype=dt)
    y = data(ctx, B, C, n, dtype=dt)
    if ctx.rng.random() < 0.5:
        # one witness channel for all
        return Op(lambda x, y: [(m(x, y), 0, 1)],
                  {"x": (x, 0, 1), "y": (y[:, 0], 0, None)}, m,
                  channels=True)
    return Op(lambda x, y: [(m(x, y), 0, 1)],
              {"x": (x, 0, 1), "y": (y, 0, 1)}, m, channels=True)


@op
def whiten_function(ctx):
    dt = dtype_of(ctx)
    B, C, fs = size(ctx), ctx.randint(1, 3), 64
    T = fs * ctx.randint(3, 6)
    psd = torch.tensor(ctx.uniform(0.5, 2, (B, C, T // 2 + 1))).to(dt)
    batched = ctx.rng.random() < 0.5
    hp, lp = ctx.choice([None, 6]), ctx.choice([None, 25])
    crop = ctx.rng.random() < 0.7
    fd = ctx.choice([0.5, 1.0])

    def run(x, psd):
        psd = psd if batched else psd[0]
        return [(spectral.whiten(x, psd, fd, fs, highpass=hp, lowpass=lp,
                                 crop=crop), 0, 1)]

    inp = {"x": (data(ctx, B, C, T, dtype=dt), 0, 1)}
    inp["psd"] = (psd, 0, 1) if batched else (psd[:1], None, 1)
    return Op(run, inp, channels=True)


@op
def whiten_module(ctx):
    dt = dtype_of(ctx)
    B, C, fs = size(ctx), ctx.randint(1, 3), 64
    T = fs * ctx.randint(3, 5)
    m = transforms.Whiten(1, fs, highpass=ctx.choice([None, 6])).to(dt)
    psd = torch.tensor(ctx.uniform(0.5, 2, (B, C, T // 2 + 1))).to(dt)
    return Op(lambda x, psd: [(m(x, psd), 0, 1)],
              {"x": (data(ctx, B, C, T, dtype=dt), 0, 1),
               "psd": (psd, 0, 1)}, m, channels=True)


@op
def fixed_whiten(ctx):
    dt = dtype_of(ctx)
    B, C, fs = size(ctx), ctx.randint(1, 3), 64
    m = transforms.FixedWhiten(C, 4, fs, dtype=dt)
    m.fit(1, *data(ctx, C, fs * 16, dtype=dt), fftlength=2,
          highpass=ctx.choice([None, 6]))
    return Op(lambda x: [(m(x), 0, None)],
              {"x": (data(ctx, B, C, 4 * fs, dtype=dt), 0, None)}, m)


@op
def truncation(ctx):
    dt = dtype_of(ctx)
    B, C, fs = size(ctx), ctx.randint(1, 3), 64
    psd = torch.tensor(ctx.uniform(0.5, 2, (B, C, 65))).to(dt)

    def run(psd):
        return [(spectral.truncate_inverse_power_spectrum(psd, 0.5, fs), 0,
                 1)]

    return Op(run, {"psd": (psd, 0, 1)}, channels=True,
              tol=1e-4 if dt == F32 else 1e-9)


@op
def scaler(ctx):
    dt = dtype_of(ctx)
    B, C, T = size(ctx), ctx.randint(1, 4), ctx.randint(5, 50)
    m = transforms.ChannelWiseScaler(C)
    m.fit(data(ctx, C, 200, dtype=F32))
    m = m.to(dt)
    back = ctx.rng.random() < 0.5
    return Op(lambda x: [(m(x, reverse=back), 0, None)],
              {"x": (data(ctx, B, C, T, dtype=dt), 0, None)}, m)


# --------------------------------------------------------------- transforms
@op
def q_transform(ctx):
    B, C, fs, T = size(ctx), ctx.randint(1, 2), 128, 2
    m = transforms.SingleQTransform(
        T, fs, (16, 20), q=ctx.choice([5, 9]), mismatch=0.05, frange=[10, 40],
        interpolation_method=ctx.choice(["bicubic", "bilinear", "spline"]))
    norm = ctx.choice(["median", "mean", None])
    x = data(ctx, B, C, fs * T, dtype=F32)
    return Op(lambda x: [(m(x, norm=norm), 0, 1)], {"x": (x, 0, 1)}, m,
              channels=True, tol=1e-3)


@op
def q_tile(ctx):
    B, C, fs, T = size(ctx), ctx.randint(1, 2), 128, 2
    m = QTile(ctx.choice([6, 12]), ctx.uniform(15, 40), T, fs, 0.2)
    norm = ctx.choice(["median", "mean", None])
    x = torch.fft.rfft(data(ctx, B, C, fs * T, dtype=F32), norm="forward")
    re = torch.view_as_real(x)

    def run(re):
        z = torch.view_as_complex(re.contiguous())
        return [(m(z, norm=norm), 0, 1)]

    return Op(run, {"re": (re, 0, 1)}, m, channels=True, tol=1e-4)


@op
def spline_1d(ctx):
    B, C = size(ctx), ctx.randint(1, 3)
    n, k = ctx.randint(8, 25), ctx.choice([1, 2, 3])
    x = torch.sort(torch.tensor(ctx.uniform(0, 1, n)) * 0.3
                   + torch.arange(n))[0]
    out = torch.tensor(np.linspace(float(x[0]), float(x[-1]), 30))
    m = transforms.SplineInterpolate1D(
        x_in=x.float(), kx=k, x_out=out.float()).double()
    z = data(ctx, B, C, ctx.randint(1, 4), n, dtype=F64)
    return Op(lambda z: [(m(z), 0, 1)], {"z": (z, 0, 1)}, m, channels=True,
              tol=1e-8)


@op
def spline_2d(ctx):
    B, C = size(ctx), ctx.randint(1, 3)
    nx, ny = ctx.randint(6, 14), ctx.randint(6, 14)
    m = transforms.SplineInterpolate2D(
        x_in=torch.arange(nx).float(), y_in=torch.arange(ny).float(),
        kx=ctx.choice([1, 3]), ky=ctx.choice([1, 3]),
        x_out=torch.linspace(0, nx - 1, 17),
        y_out=torch.linspace(0, ny - 1, 11)).double()
    z = data(ctx, B, C, ny, nx, dtype=F64)
    return Op(lambda z: [(m(z), 0, 1)], {"z": (z, 0, 1)}, m, channels=True,
              tol=1e-8)


@op
def decimator(ctx):
    dt = dtype_of(ctx)
    B, C, fs = size(ctx), ctx.randint(1, 3), 64
    split = ctx.rng.random() < 0.5
    sched = torch.tensor([[0, 2, 16], [2, 3, 32], [3, 4, 64]])
    m = transforms.Decimator(fs, sched, split=split)

    def run(x):
        out = m(x)
        return [(t, 0, 1) for t in (out if split else [out])]

    return Op(run, {"x": (data(ctx, B, C, 4 * fs, dtype=dt), 0, 1)}, m,
              channels=True, exact=True)


@op
def heterodyne(ctx):
    B, C, fs = size(ctx), ctx.randint(1, 3), 64
    m = transforms.Heterodyne(fs, 2, torch.tensor([5.0, 10.0, 20.0]), "both")
    dt = dtype_of(ctx)

    def run(x):
        return [(t, 0, 1) for t in m(x)]

    return Op(run, {"x": (data(ctx, B, C, 2 * fs, dtype=dt), 0, 1)}, m,
              channels=True)


@op
def tophat(ctx):
    B, dt = size(ctx), dtype_of(ctx)
    m = transforms.TophatIntegrator(ctx.choice([4, 16]), ctx.randint(1, 4))
    m = m.to(dt)
    x = data(ctx, B, 100, dtype=dt)
    return Op(lambda x: [(m(x), 0, None)], {"x": (x, 0, None)}, m)


@op
def leaky(ctx):
    B, dt = size(ctx), dtype_of(ctx)
    m = transforms.LeakyIntegrator(
        ctx.uniform(-1, 1), ctx.uniform(0.1, 1), ctx.choice([0.0, -2.0]),
        ctx.choice(["count", "score"]))
    x = data(ctx, B, 60, dtype=dt)
    return Op(lambda x: [(m(x), 0, None)], {"x": (x, 0, None)}, m)


@op
def iir(ctx):
    dt = F64
    B, C = size(ctx), ctx.randint(1, 3)
    lead = ctx.choice([(B, C), (B,)])
    m = transforms.IIRFilter(ctx.randint(1, 4), ctx.uniform(0.1, 0.6),
                             btype=ctx.choice(["low", "high"]))
    x = data(ctx, *lead, ctx.randint(50, 200), dtype=dt)
    c = 1 if len(lead) == 2 else None
    return Op(lambda x: [(m(x), 0, c)], {"x": (x, 0, c)}, m,
              channels=c is not None, tol=1e-8)


@op
def spectrogram(ctx):
    dt = F32
    B, C, fs = size(ctx), ctx.randint(1, 3), 128
    m = transforms.MultiResolutionSpectrogram(
        1, fs, n_fft=[16, 32, 64], normalized=[True] * 3)
    return Op(lambda x: [(m(x), 0, 1)],
              {"x": (data(ctx, B, C, fs, dtype=dt), 0, 1)}, m, channels=True)


@op
def pearson(ctx):
    dt = dtype_of(ctx)
    B, C, T = size(ctx), ctx.randint(1, 3), ctx.randint(5, 60)
    m = transforms.ShiftedPearsonCorrelation(ctx.randint(0, 4))
    x, y = (data(ctx, B, C, T, dtype=dt) for _ in range(2))
    kind = ctx.choice([3, 3, 2])
    if kind == 2:
        return Op(lambda x, y: [(m(x, y[0]), 1, 2)],
                  {"x": (x, 0, 1), "y": (y[:1], None, 1)}, m, channels=True)
    return Op(lambda x, y: [(m(x, y), 1, 2)],
              {"x": (x, 0, 1), "y": (y, 0, 1)}, m, channels=True)


@op
def unfolding(ctx):
    dt = dtype_of(ctx)
    B, C, T = size(ctx), ctx.randint(1, 3), ctx.randint(20, 60)
    w, s = ctx.randint(1, 15), ctx.randint(1, 9)

    def run(x):
        out = unfold_windows(x, w, s)
        return [(out, 1, 2)]

    return Op(run, {"x": (data(ctx, B, C, T, dtype=dt), 0, 1)},
              channels=True, exact=True)


@op
def slicing(ctx):
    dt = dtype_of(ctx)
    B, C, T = size(ctx), ctx.randint(1, 3), ctx.randint(20, 60)
    k = ctx.randint(1, 10)
    if ctx.rng.random() < 0.5:
        x = data(ctx, B, C, T, dtype=dt)
        idx = torch.tensor(ctx.rng.integers(0, T - k, B))
        return Op(lambda x, idx: [(slice_kernels(x, idx, k), 0, 1)],
                  {"x": (x, 0, 1), "idx": (idx, 0, None)}, channels=True,
                  exact=True)
    x = data(ctx, C, T, dtype=dt)
    idx = torch.tensor(ctx.rng.integers(0, T - k, (B, C)))
    return Op(lambda x, idx: [(slice_kernels(x[0], idx, k), 0, 1)],
              {"x": (x[None], None, 1), "idx": (idx, 0, 1)}, channels=True,
              exact=True)


# ----------------------------------------------------------------- networks
def net(ctx, m, *shape, dt=F64, tol=1e-9):
    m = m.to(dt).eval()
    with torch.no_grad():
        for name, p in m.named_parameters():
            if p.ndim < 3:
                p += 0.1 * torch.tensor(
                    ctx.rng.standard_normal(p.shape)).to(dt)
    for p in m.parameters():
        p.requires_grad_(False)
    x = data(ctx, *shape, dtype=dt)
    return Op(lambda x: [(m(x), 0, None)], {"x": (x, 0, None)}, m, tol=tol,
              atol=1e-12)


@op
def resnet_1d(ctx):
    cls = ctx.choice([ResNet1D, ResNet1D, BottleneckResNet1D])
    norm = ctx.choice([None, GroupNorm1DGetter(4), torch.nn.BatchNorm1d])
    m = cls(2, [1, 1], 3, norm_layer=norm)
    return net(ctx, m, size(ctx), 2, ctx.randint(40, 90), tol=1e-7)


@op
def resnet_2d(ctx):
    cls = ctx.choice([ResNet2D, ResNet2D, BottleneckResNet2D])
    norm = ctx.choice([None, GroupNorm2DGetter(4), torch.nn.BatchNorm2d])
    m = cls(2, [1, 1], 3, norm_layer=norm)
    return net(ctx, m, size(ctx), 2, 36, ctx.randint(34, 40), tol=1e-7)


@op
def s4_layer(ctx):
    H, L = ctx.randint(1, 4), ctx.randint(1, 60)
    tr = ctx.rng.random() < 0.6
    m = S4D(H, d_state=ctx.choice([2, 8, 64]), dropout=0.2, transposed=tr)
    return net(ctx, m, size(ctx), *((H, L) if tr else (L, H)))


@op
def s4_model(ctx):
    m = S4Model(2, 3, d_model=6, d_state=8, n_layers=2)
    return net(ctx, m, size(ctx), 2, ctx.randint(1, 60))


@op
def autoencoder(ctx):
    skip = ctx.choice([None, AddSkipConnect(), ConcatSkipConnect(2)])
    m = ConvolutionalAutoencoder(2, [3, 4], 5, stride=2, groups=2,
                                 skip_connection=skip)
    return net(ctx, m, size(ctx), 2, ctx.randint(12, 50))


@op
def group_norm(ctx):
    G = ctx.choice([1, 2, 3])
    C = G * ctx.randint(1, 3)
    op = net(ctx, GroupNorm1D(C, G), size(ctx), C, ctx.randint(2, 50))
    if ctx.rng.random() < 0.5:
        op.module.train()
    return op
