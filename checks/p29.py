"""P29: state-space layers convolve with their own state-space response."""

import copy
import io

import numpy as np
import torch

from ml4gw.nn.ssm.s4d import S4D, S4DKernel, S4Model
from vlib import stats
from vlib.core import family

TECHNIQUE = ("output monitor: kernels, layers and models are compared with "
             "the recurrence stepped in numpy double precision from the "
             "module's own parameters; metamorphic monitors for causality, "
             "prefixes, shifts, axes, batch elements and repetition")
NOTE = ("Single precision is compared within a bound that follows the "
        "conditioning of each mode; double precision within 1e-9.")
RULE = ("seeded random widths, state sizes, timestep ranges, lengths, "
        "parameter values, batches; distinct by those classes")
ASSUMPTIONS = ["modes decay, as the parameterisation guarantees"]
REQUIRED = {"large": 20, "kernels": 200, "kernel_samples": 20000, "layers": 200,
            "length_one": 10, "odd_length": 60, "causal": 25, "prefix": 25,
            "shift": 25, "axes": 25, "independence": 25, "models": 30,
            "deterministic": 60, "timesteps": 10, "wild_parameters": 60,
            "long": 30, "weights_changed": 25}


def erf(x):
    from scipy.special import erf

    return erf(x)


def gelu(x):
    return 0.5 * x * (1 + erf(x / np.sqrt(2)))


def num(p):
    return p.detach().double().numpy()


def system(kernel):
    """(dtA, B, C) of the discretised diagonal system, complex128"""
    dt = np.exp(num(kernel.log_dt))[:, None]
    A = -np.exp(num(kernel.log_A_real)) + 1j * num(kernel.A_imag)
    C = num(kernel.C)
    C = C[..., 0] + 1j * C[..., 1]
    return dt * A, np.expm1(dt * A) / A, C


def impulse(kernel, L):
    dtA, B, C = system(kernel)
    x = B.copy()
    step = np.exp(dtA)
    out = np.zeros((dtA.shape[0], L))
    for k in range(L):
        out[:, k] = 2 * (C * x).real.sum(-1)
        x = x * step
    return out


def run(kernel, u):
    """the recurrence x <- e^(dt A) x + B u, y = 2 Re C x, on (b, H, L)"""
    dtA, B, C = system(kernel)
    step = np.exp(dtA)
    x = np.zeros((u.shape[0], *dtA.shape), dtype=complex)
    y = np.zeros(u.shape)
    for k in range(u.shape[-1]):
        x = step * x + B * u[..., k, None]
        y[..., k] = 2 * (C * x).real.sum(-1)
    return y


def bound(kernel, L, dtype):
    """error of each kernel sample: rounding of phase and of e^z - 1"""
    eps = 1.2e-7 if dtype == torch.float32 else 2.3e-16
    dtA, B, C = system(kernel)
    k = np.arange(L)
    size = np.abs(C * B)[..., None] * np.exp(dtA.real[..., None] * k)
    rel = 8 + 4 / np.abs(dtA)[..., None] + 4 * np.abs(dtA)[..., None] * (k + 1)
    return 2 * eps * (size * np.minimum(rel, 1 / eps)).sum(1) + 1e-44


def layer_out(layer, u):
    """numpy evaluation of a layer on (B, H, L)"""
    y = run(layer.kernel, u) + u * num(layer.D)[:, None]
    conv = layer.output_linear[0]
    w, b = num(conv.weight)[..., 0], num(conv.bias)
    z = np.einsum("oh,bhl->bol", w, gelu(y)) + b[:, None]
    H = u.shape[1]
    return z[:, :H] / (1 + np.exp(-z[:, H:]))


def settings(ctx):
    lo = float(10 ** ctx.uniform(-4, -1.5))
    return {"dt_min": lo, "dt_max": lo * float(10 ** ctx.uniform(0, 2))}


def wild(ctx, kernel):
    """parameters as training may leave them"""
    with torch.no_grad():
        kernel.log_dt += ctx.randn(*kernel.log_dt.shape)
        kernel.log_A_real += ctx.randn(*kernel.log_A_real.shape) * 1.5
        kernel.A_imag += ctx.randn(*kernel.A_imag.shape) * 5
        kernel.C *= ctx.randn(*kernel.C.shape) * 3
    ctx.event("wild_parameters")


def length(ctx):
    L = ctx.choice([1, 2, 3, ctx.randint(2, 20), ctx.randint(20, 130),
                    ctx.randint(100, 400), 64, 129])
    if L == 1:
        ctx.event("length_one")
    if L % 2:
        ctx.event("odd_length")
    return L


@family("P29", quick=250, thorough=5000, priority=1)
def kernels(ctx):
    H, N = ctx.randint(1, 6), 2 * ctx.choice([1, 2, 3, 8, 32])
    L = length(ctx)
    opts = settings(ctx)
    dtype = ctx.choice([torch.float32, torch.float64])
    if ctx.slot(20) == 9:
        H, N = ctx.choice([(16, 4), (33, 2), (9, 64), (128, 4)])
        L = ctx.randint(1, 70)
        ctx.event("large")
    ctx.params(H=H, N=N, L=L, dtype=str(dtype), **opts)
    k = ctx.call(S4DKernel, H, N, **opts)
    dt = np.exp(num(k.log_dt))
    ctx.check(bool(((dt >= opts["dt_min"] * (1 - 1e-5))
                    & (dt <= opts["dt_max"] * (1 + 1e-5))).all()),
              "timestep", f"timesteps {dt} outside {opts}")
    ctx.check(num(k.C).shape == (H, N // 2, 2), "states",
              f"{num(k.C).shape} for {N} states")
    fresh = ctx.rng.random() < 0.4
    if not fresh:
        wild(ctx, k)
    if dtype == torch.float64:
        k = k.double()
    with torch.set_grad_enabled(bool(ctx.slot(2))):
        out = ctx.call(k, L).detach()
    ctx.need(tuple(out.shape) == (H, L), "shape", f"{tuple(out.shape)}")
    want = impulse(k, L)
    b = 4 * bound(k, L, dtype) + 1e-300
    err = np.abs(out.double().numpy() - want)
    ctx.check(out.dtype == dtype, "dtype", f"{out.dtype}")
    ctx.check(bool((err <= b).all()), "kernel", "the kernel is not the "
              "impulse response of its system", worst=float((err / b).max()))
    ctx.maximum("kernel_error", float((err / b).max()))
    # a kernel of another length is the same response
    M = ctx.randint(1, 2 * L)
    other = ctx.call(k, M).detach().double().numpy()
    m = min(M, L)
    ctx.check(bool((np.abs(other[:, :m] - out.double().numpy()[:, :m])
                    <= 2 * b[:, :m]).all()), "kernel_length",
              f"kernels of lengths {L} and {M} differ")
    ctx.event("kernels")
    ctx.event("kernel_samples", out.numel())
    ctx.state("kernel", H, N, min(L, 4), str(dtype), fresh)


@family("P29", quick=250, thorough=5000, priority=1)
def layers(ctx):
    H, N = ctx.randint(1, 6), 2 * ctx.choice([1, 2, 4, 16])
    L, B = length(ctx), ctx.choice([1, 1, 2, 3, 7])
    opts = settings(ctx)
    dtype = ctx.choice([torch.float32, torch.float64])
    dropout = ctx.choice([0.0, 0.0, 0.3, 0, 1, 1.0])
    if ctx.slot(20) == 9:
        H, N = ctx.choice([(16, 4), (33, 2), (9, 64), (64, 4), (3, 4)])
        B, L = ctx.choice([1, 2, 17, 33, 65]), ctx.randint(1, 70)
        ctx.event("large")
    ctx.params(H=H, N=N, L=L, B=B, dtype=str(dtype), dropout=dropout, **opts)
    layer = ctx.call(S4D, H, d_state=N, dropout=dropout, **opts)
    if ctx.rng.random() < 0.5:
        wild(ctx, layer.kernel)
    layer = layer.to(dtype)
    if dropout or ctx.rng.random() < 0.5:
        layer.eval()
    u = ctx.randn(B, H, L, dtype=dtype)
    kind = ctx.choice(["noise", "impulse", "step"])
    if kind == "impulse":
        u = torch.zeros_like(u)
        u[..., ctx.randint(0, L - 1)] = 3
    elif kind == "step":
        u = 0.1 * u
        u[..., ctx.randint(0, L - 1):] += 1
    uc = u.clone()
    with torch.no_grad():
        out = ctx.call(layer, u)
    ctx.check(torch.equal(u, uc), "input_altered", "input altered")
    ctx.need(tuple(out.shape) == (B, H, L), "shape", f"{tuple(out.shape)}")
    # size of error: that of the kernel summed against the input, then
    # through gelu (slope below 1.13) and the linear map
    un = u.double().numpy()
    kb = bound(layer.kernel, L, dtype)
    eps = 1.2e-7 if dtype == torch.float32 else 2.3e-16
    size = np.abs(impulse(layer.kernel, L)).sum(-1) + np.abs(
        num(layer.D)) + 1
    top = np.abs(un).max(initial=0) + 1e-30
    inner = kb.sum(-1) * top + 40 * eps * size * top
    conv = layer.output_linear[0]
    w = np.abs(num(conv.weight)[..., 0])
    zerr = 1.2 * (w @ inner) + 20 * eps * (w @ (size * top)) + 20 * eps
    z = w @ (size * top) + 1
    tol = (2 * (zerr[:H] + z[:H] * zerr[H:]))[None, :, None] + 20 * eps
    tol = 4 * tol

    def close(a, b, what, msg, t=tol):
        err = np.abs(a.double().numpy() - (b if isinstance(b, np.ndarray)
                                           else b.double().numpy()))
        ctx.check(bool((err <= t).all()), what, msg,
                  worst=float((err / t).max()) if err.size else 0.0)
        ctx.maximum(f"error_{what}", float((err / t).max(initial=0)))

    close(out, layer_out(layer, un), "layer",
          "the layer differs from stepping its recurrence")
    ctx.event("layers")
    with torch.no_grad():
        ctx.equal(ctx.call(layer, u), out, "deterministic",
                  "a second call differs")
        ctx.event("deterministic")
        which = ctx.slot(6)
        if which == 5:
            # a training step, or other weights read in
            with torch.no_grad():
                if ctx.rng.random() < 0.5:
                    layer.kernel.C.mul_(-0.5)
                    layer.D.add_(0.3)
                else:
                    new = {k: v * (0.9 if k.endswith("C") else 1)
                           - (0.1 if k.endswith("log_dt") else 0)
                           for k, v in layer.state_dict().items()}
                    ctx.call(layer.load_state_dict, new)
            close(ctx.call(layer, u), layer_out(layer, un), "weights",
                  "weights changed after a call are not followed", 2 * tol)
            ctx.event("weights_changed")
        elif which == 0:
            cut = ctx.randint(0, L - 1)
            v = u.clone()
            v[..., cut:] += torch.sign(v[..., cut:] + 0.5) * 2 * top
            close(ctx.call(layer, v)[..., :cut], out[..., :cut], "causal",
                  f"samples before {cut} feel those after it", 8 * tol)
            ctx.event("causal")
        elif which == 1:
            cut = ctx.randint(1, L)
            close(ctx.call(layer, u[..., :cut]), out[..., :cut], "prefix",
                  f"the first {cut} samples alone give something else",
                  2 * tol)
            ctx.event("prefix")
        elif which == 2:
            s = ctx.randint(1, L)
            v = torch.cat([torch.zeros(B, H, s, dtype=dtype), u], -1)
            o = ctx.call(layer, v)
            close(o[..., s:], out, "shift", f"delayed by {s}", 4 * tol)
            rest = layer_out(layer, np.zeros((1, H, 1)))
            close(o[..., :s], np.broadcast_to(rest, (B, H, s)), "shift",
                  "silence before the signal is not silent", 4 * tol)
            ctx.event("shift")
        elif which == 3:
            other = ctx.call(S4D, H, d_state=N, dropout=dropout,
                             transposed=False, **opts)
            ctx.call(other.load_state_dict, layer.state_dict())
            other = other.to(dtype)
            other.train(layer.training)
            o = ctx.call(other, u.transpose(1, 2))
            ctx.need(tuple(o.shape) == (B, L, H), "shape",
                     f"{tuple(o.shape)} untransposed")
            close(o.transpose(1, 2), out, "axes",
                  "the other axis convention gives something else", 2 * tol)
            ctx.event("axes")
        else:
            b = ctx.randint(0, B - 1)
            v = torch.full_like(u, ctx.choice([float("nan"), 1e6, 0.0]))
            v[b] = u[b]
            close(ctx.call(layer, v)[b], out[b], "independence",
                  "another batch element leaks in", 2 * tol[0])
            perm = torch.randperm(B)
            close(ctx.call(layer, u[perm]), out[perm], "independence",
                  "permuted batch", 2 * tol)
            close(ctx.call(layer, u[b : b + 1])[0], out[b], "independence",
                  "one element alone", 2 * tol[0])
            ctx.event("independence")
    ctx.state("layer", H, N, min(L, 4), B, str(dtype), dropout, kind)


@family("P29", quick=60, thorough=1200, priority=1)
def models(ctx):
    cin, cout = ctx.randint(1, 3), ctx.randint(1, 4)
    H, N, n = ctx.randint(2, 8), 2 * ctx.randint(1, 6), ctx.randint(1, 3)
    L, B = length(ctx), ctx.randint(1, 4)
    opts = settings(ctx)
    dtype = ctx.choice([torch.float64, torch.float64, torch.float32])
    if ctx.slot(10) == 7:
        cin, H = ctx.choice([(1, 16), (9, 33), (17, 8)])
        B, L, n = ctx.choice([1, 9, 33]), ctx.randint(1, 60), ctx.randint(1, 5)
    elif ctx.slot(10) == 3 and ctx.rng.random() < 0.3:
        B, H, N, n = 1, ctx.randint(1, 3), 2, 1
        L = ctx.choice([8193, 16384, ctx.randint(6000, 17000)])
        ctx.event("large")
    ctx.params(cin=cin, cout=cout, H=H, N=N, n=n, L=L, B=B,
               dtype=str(dtype), **opts)
    m = ctx.call(S4Model, cin, cout, d_model=H, d_state=N, n_layers=n,
                 dropout=ctx.choice([0.2, 0.0, 0.5]), **opts).to(dtype).eval()
    x = ctx.randn(B, cin, L, dtype=dtype)
    with torch.no_grad():
        out = ctx.call(m, x)
        ctx.need(tuple(out.shape) == (B, cout), "shape", f"{out.shape}")
        ctx.equal(ctx.call(m, x), out, "deterministic", "evaluation repeats")
        f = io.BytesIO()
        torch.save(m.state_dict(), f)
        f.seek(0)
        fresh = S4Model(cin, cout, d_model=H, d_state=N, n_layers=n,
                        dropout=0.1, **opts).to(dtype).eval()
        ctx.call(fresh.load_state_dict, torch.load(f))
        ctx.equal(ctx.call(fresh, x), out, "reload", "a reloaded model "
                  "differs")
        ctx.equal(ctx.call(copy.deepcopy(m), x), out, "copy",
                  "a copied model differs")
    ctx.event("deterministic")
    h = np.einsum("mi,bil->bml", num(m.encoder.weight), x.double().numpy())
    h = h + num(m.encoder.bias)[:, None]
    for layer, norm in zip(m.s4_layers, m.norms, strict=True):
        h = h + layer_out(layer, h)
        c = h - h.mean(1, keepdims=True)
        h = c / np.sqrt((c**2).mean(1, keepdims=True) + norm.eps)
        h = h * num(norm.weight)[:, None] + num(norm.bias)[:, None]
    want = h.mean(-1) @ num(m.decoder.weight).T + num(m.decoder.bias)
    tol = 1e-9 if dtype == torch.float64 else 2e-3
    ctx.close(out, want, "model", "the model differs from its recurrences",
              rtol=tol, atol=tol, dtype=dtype)
    with torch.no_grad():
        b = ctx.randint(0, B - 1)
        v = torch.full_like(x, float("nan"))
        v[b] = x[b]
        ctx.close(ctx.call(m, v)[b], out[b], "independence",
                  "another element leaks in", rtol=tol, atol=tol)
    ctx.event("models")
    ctx.state("model", n, min(L, 4), str(dtype))


@family("P29", quick=20, thorough=100)
def timesteps(ctx):
    """timesteps are drawn log-uniformly from the range asked for"""
    opts = settings(ctx)
    if opts["dt_max"] < 1.5 * opts["dt_min"]:
        opts["dt_max"] = 3 * opts["dt_min"]
    ctx.params(**opts)
    if ctx.slot(2):
        k = ctx.call(S4DKernel, 4000, 2, **opts)
        v = num(k.log_dt)
    else:
        m = ctx.call(S4Model, 1, 1, d_model=150, d_state=2, n_layers=8, **opts)
        v = np.concatenate([num(s.kernel.log_dt) for s in m.s4_layers])
    a, b = np.log(opts["dt_min"]), np.log(opts["dt_max"])
    p = stats.ks_p(v, lambda t: np.clip((t - a) / (b - a), 0, 1))
    ctx.check(p > stats.P_FALSE, "timesteps", f"not log-uniform: {p:.3g}")
    ctx.event("timesteps")
    ctx.state("timesteps", ctx.slot(2))


@family("P29", quick=40, thorough=600)
def long_sequences(ctx):
    """memories that outlast long sequences, at awkward lengths"""
    L = ctx.choice([ctx.randint(400, 1100), ctx.randint(1000, 5000),
                    2 ** ctx.randint(9, 12) + ctx.randint(-1, 1),
                    (2 ** ctx.randint(9, 12)) // 3 * 2 + ctx.randint(-1, 1)])
    H, N = ctx.randint(1, 3), 2 * ctx.randint(1, 3)
    opts = dict(dt_min=1e-5, dt_max=ctx.choice([1e-4, 1e-3]))
    ctx.params(L=L, H=H, N=N, **opts)
    layer = ctx.call(S4D, H, d_state=N, **opts).double().eval()
    u = ctx.randn(2, H, L, dtype=torch.float64)
    cut = ctx.choice([L - 1, ctx.randint(1, L - 1), L // 2])
    u[1] = 0
    u[1, :, cut:] = 100 * ctx.randn(H, L - cut, dtype=torch.float64)
    with torch.no_grad():
        out = ctx.call(layer, u)
        k = ctx.call(layer.kernel, L)
    want = layer_out(layer, u.numpy())
    ctx.close(k, impulse(layer.kernel, L), "kernel", f"length {L}",
              rtol=1e-7, atol=1e-9 * np.abs(k.numpy()).max())
    ctx.close(out, want, "layer", "differs from stepping its recurrence",
              rtol=1e-8, atol=1e-8 * (1 + np.abs(want).max()))
    rest = layer_out(layer, np.zeros((1, H, 1)))[0]
    ctx.close(out[1, :, :cut], np.broadcast_to(rest, (H, cut)), "causal",
              f"samples before {cut} feel those after it", rtol=1e-8,
              atol=1e-8 * (1 + np.abs(want).max()))
    ctx.event("long")
    ctx.state("long", H, N, L // 500, cut == L - 1)
