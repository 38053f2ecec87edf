"""P34: gradients are the derivatives of the values computed."""

import numpy as np
import torch

from checks.p33 import ALL as REGISTRY
from ml4gw.waveforms import IMRPhenomD, IMRPhenomPv2, TaylorF2
from vlib import ops as O
from vlib.core import Abort, family

TECHNIQUE = ("runtime monitor: gradients recorded by autograd along a random "
             "direction against central differences of the same operation, "
             "with a self-consistency test of the differences themselves")
NOTE = ("Every operation of the P32/P33 registry, one or all arguments "
        "recorded, directions at random, along the argument itself and along "
        "one series; gradients of one element's result with respect to the "
        "others; gradients with respect to the weights of networks in "
        "training and evaluation mode. A result without a graph counts as a "
        "claim that the derivative is zero.")
RULE = ("seeded random operation, arguments and direction; distinct by "
        "operation, argument and direction")
ASSUMPTIONS = ["where central differences at neighbouring steps disagree "
               "with one another (kinks, rounding) nothing is decided, and "
               "the case is counted as rough"]
EXTRA = {}


def frequencies(name, cls, spins):
    """waveforms by the frequencies asked for"""
    def build(ctx):
        op = O.wave(ctx, cls, spins)
        m, p = op.module, {k: v[0] for k, v in op.inputs.items()}
        f_ref = ctx.choice([20.0, 33.0, 60.0])
        f = torch.tensor(np.sort(ctx.uniform(20, 400, ctx.randint(5, 40))))

        def run(f):
            hc, hp = m(f, f_ref=f_ref, **{k: t.clone() for k, t in p.items()})
            return [(hc, 0, None), (hp, 0, None)]

        return O.Op(run, {"f": (f, None, None)}, m, tol=1e-7,
                    refuse=op.refuse)

    EXTRA[name] = build


frequencies("taylor_f2_by_f", TaylorF2, ["chi1", "chi2"])
frequencies("phenom_d_by_f", IMRPhenomD, ["chi1", "chi2"])
frequencies("phenom_p_by_f", IMRPhenomPv2,
            ["s1x", "s1y", "s1z", "s2x", "s2y", "s2z"])
ALL = {**REGISTRY, **EXTRA}
OPERATIONS = list(ALL)
NETS = ["resnet_1d", "resnet_2d", "s4_layer", "s4_model", "autoencoder",
        "group_norm"]
REQUIRED = {"derivatives": 1200, "isolated": 300, "weight_derivatives": 60,
            "values_with_graph": 800, "one_argument": 200, "single_precision": 150,
            **{f"op_{n}": 5 for n in OPERATIONS if n not in NETS}}
# operations that work in single precision inside, whatever they are given
SINGLE = {"ifo_snr", "network_snr", "reweighting", "snr_rescaler",
          "whiten_function", "whiten_module", "fixed_whiten", "normalization",
          "time_bounds", "q_transform", "q_tile", "q_scan", "spectrogram",
          "log_prob"}


class Functional:
    """a random weighted sum of all outputs"""

    def __init__(self, ctx, outs, only=None):
        self.w = []
        for t, b, _ in outs:
            if not (t.is_floating_point() or t.is_complex()):
                self.w.append(None)
                continue
            t = t.detach()
            w = torch.tensor(ctx.rng.standard_normal(t.shape))
            if t.is_complex():
                w = torch.complex(w, torch.tensor(
                    ctx.rng.standard_normal(t.shape)))
            if only is not None and b is not None:
                keep = torch.zeros(t.shape[b], dtype=bool)
                keep[only] = True
                w = w * keep.reshape([-1] + [1] * (t.ndim - b - 1))
            top = t.abs()[t.isfinite()]
            top = float(top.max()) if top.numel() else 1.0
            self.w.append(w / (top or 1.0))

    def __call__(self, outs):
        total = torch.zeros((), dtype=torch.float64)
        for (t, *_), w in zip(outs, self.w, strict=True):
            if w is not None:
                # through a mask, so that unused infinities do not matter
                v = torch.where(w != 0, t, 0).to(w.dtype)
                total = total + (v * w).real.sum()
        return total

    def size(self, outs):
        return sum(float((torch.where(w != 0, t, 0).abs() * w.abs()).sum())
                   for (t, *_), w in zip(outs, self.w, strict=True)
                   if w is not None)


def verdict(ctx, name, what, value, slope, parts, size, single):
    """compare a recorded slope with central differences of value(h)"""
    steps = [3e-2, 1e-2, 3e-3, 1e-3] if single else [
        1e-3, 1e-4, 1e-5, 1e-6, 1e-7]
    eps, tol = (4e-6, 2e-2) if single else (2e-14, 1e-4)
    fd = np.array([(value(h) - value(-h)) / (2 * h) for h in steps])
    ctx.event("derivatives")
    if not np.isfinite(fd).all():
        ctx.event("not_finite_differences")
        return
    noise = eps * size / np.array(steps)
    err = np.abs(fd - slope)
    ctx.event("oracle_verdicts")
    if (err <= tol * parts + noise).any():
        ctx.event(f"op_{name}")
        return
    # nothing is decided unless the three smallest steps that rounding leaves
    # usable agree with one another
    usable = np.flatnonzero(noise < 0.05 * err)[-3:]
    if len(usable) < 3 or np.ptp(fd[usable]) > 0.05 * err[usable].min():
        ctx.event("rough")
        return
    k = int(usable[-1])
    ctx.violate("derivative", f"{name} {what}: the gradient gives {slope:.8g} "
                f"per unit step, differences {fd[k]:.8g}",
                differences=fd.tolist(), noise=noise.tolist(), scale=parts)


def directions(ctx, inp, names):
    out = {}
    kind = ctx.choice(["random", "random", "self", "series"])
    for k in names:
        t = inp[k].double()
        if kind == "self":
            out[k] = t.clone()
            continue
        v = torch.tensor(ctx.rng.standard_normal(t.shape)) * t.abs()
        if kind == "series" and t.ndim > 1:
            v = torch.zeros_like(t)
            j = tuple(ctx.randint(0, n - 1) for n in t.shape[:-1])
            v[j] = t[j].abs().mean()
        out[k] = v
    return kind, out


def backward(ctx, name, what, total, leaves):
    try:
        return torch.autograd.grad(total, leaves, allow_unused=True)
    except Exception as e:
        ctx.violate("backward", f"{name} {what}: no gradient: "
                    f"{type(e).__name__}: {str(e)[:200]}")
        raise Abort from e


def prepared(ctx, name):
    ctx.double = True
    op = ALL[name](ctx)
    inp = {k: v[0].clone() for k, v in op.inputs.items()}
    try:
        with torch.no_grad():
            base = op.run(**{k: t.clone() for k, t in inp.items()})
    except op.refuse:
        ctx.event("outside_domain")
        raise Abort from None
    return op, inp, base


@family("P34", quick=430, thorough=9000, priority=1)
def arguments(ctx):
    name = ctx.cycle(OPERATIONS)
    op, inp, base = prepared(ctx, name)
    floats = [k for k, t in inp.items() if t.is_floating_point()]
    for every in (False, True):
        names = floats if every else [ctx.choice(floats)]
        kind, u = directions(ctx, inp, names)
        what = f"by {', '.join(names)} ({kind})"
        ctx.params(op=name, names=names, direction=kind,
                   shapes={k: tuple(t.shape) for k, t in inp.items()})
        f = Functional(ctx, base)
        leaves = {k: inp[k].clone().requires_grad_() for k in names}
        try:
            outs = op.run(**{k: t.clone() for k, t in inp.items()
                             if k not in leaves}, **leaves)
        except Exception as e:
            ctx.violate("exception", f"{name} {what}: {type(e).__name__} when "
                        f"gradients are recorded: {str(e)[:200]}")
            return
        for (a, *_), (b, *_) in zip(outs, base, strict=True):
            ctx.close(a, b, "value", f"{name} {what}: recording gradients "
                      "changes the value", rtol=100 * op.tol, scale="max",
                      atol=op.atol)
        ctx.event("values_with_graph")
        total = f(outs)
        slope, parts = 0.0, 0.0
        if total.requires_grad:
            got = backward(ctx, name, what, total, list(leaves.values()))
            for k, g in zip(leaves, got, strict=True):
                if g is None:
                    continue
                ctx.check(g.shape == inp[k].shape, "shape",
                          f"{name} {what}: {tuple(g.shape)}")
                if not ctx.check(torch.isfinite(g).all(), "not_finite",
                                 f"{name} {what}: the gradient is not finite"):
                    return
                v = g.double() * u[k]
                slope += float(v.sum())
                parts += float((v**2).sum())
        else:
            ctx.event("without_graph")

        def value(h, u=u, f=f):
            with torch.no_grad():
                x = {k: (t.double() + h * u[k]).to(t.dtype) if k in u
                     else t.clone() for k, t in inp.items()}
                try:
                    return float(f(op.run(**x)))
                except op.refuse:
                    return np.nan

        verdict(ctx, name, what, value, slope, parts**0.5, f.size(base),
                name in SINGLE)
        ctx.event("one_argument", int(not every))
        ctx.state(name, kind, tuple(names))


@family("P34", quick=170, thorough=3500)
def isolation(ctx):
    """one element's result does not pull on the others"""
    name = ctx.cycle(OPERATIONS)
    op, inp, base = prepared(ctx, name)
    names = [k for k, t in inp.items() if t.is_floating_point()
             and op.inputs[k][1] is not None]
    ctx.event("isolation_cases")
    # the scan chooses one Q for the whole batch
    if not names or op.batch < 2 or name == "q_scan":
        return
    B = op.batch
    i = ctx.randint(0, B - 1)
    ctx.params(op=name, element=i, B=B)
    leaves = {k: inp[k].clone().requires_grad_() for k in names}
    outs = ctx.call(op.run, **{k: t for k, t in inp.items()
                               if k not in leaves}, **leaves)
    total = Functional(ctx, base, only=i)(outs)
    if not total.requires_grad:
        return
    got = backward(ctx, name, "one element", total, list(leaves.values()))
    for k, g in zip(leaves, got, strict=True):
        if g is None:
            continue
        g = g.movedim(op.inputs[k][1], 0)
        rest = torch.cat([g[:i], g[i + 1:]])
        ctx.check((rest == 0).all(), "isolation", f"{name}: the gradient of "
                  f"element {i} of {B} by other elements of {k} reaches "
                  f"{float(rest.abs().max()):.3g}")
        ctx.event("isolated")
    ctx.state(name, B)


@family("P34", quick=60, thorough=1500)
def weights(ctx):
    """the same by the parameters of networks"""
    name = ctx.cycle(NETS)
    op, inp, _ = prepared(ctx, name)
    m = op.module
    train = ctx.slot(2) == 1
    m.train(train)
    for s in m.modules():
        if isinstance(s, torch.nn.modules.dropout._DropoutNd):
            s.p = 0.0
    ps = {k: p.requires_grad_() for k, p in m.named_parameters()}
    start = {k: p.detach().clone() for k, p in ps.items()}
    if ctx.rng.random() < 0.5:  # one of them
        names = [ctx.choice(list(ps))]
    else:
        names = list(ps)
    ctx.params(op=name, train=train, names=names)
    x = {k: t.clone() for k, t in inp.items()}
    outs = ctx.call(op.run, **x)
    f = Functional(ctx, outs)
    base = [(t.detach(), *r) for t, *r in outs]
    got = backward(ctx, name, f"by {names}", f(outs), [ps[k] for k in names])
    u = {k: torch.tensor(ctx.rng.standard_normal(ps[k].shape))
         * start[k].abs() for k in names}
    slope = parts = 0.0
    for k, g in zip(names, got, strict=True):
        if g is None:
            ctx.event("weight_without_gradient")
            continue
        ctx.check(torch.isfinite(g).all(), "not_finite", f"{name} {k}")
        slope += float((g * u[k]).sum())
        parts += float(((g * u[k]) ** 2).sum())

    def value(h):
        with torch.no_grad():
            for k in names:
                ps[k].copy_(start[k] + h * u[k])
            return float(f(op.run(**x)))

    verdict(ctx, name, f"by {names} {'training' if train else ''}", value,
            slope, parts**0.5, f.size(base), False)
    ctx.event("weight_derivatives")
    ctx.state(name, train, tuple(names))


@family("P34", quick=150, thorough=3000)
def precision(ctx):
    """single precision against double"""
    name = ctx.cycle([n for n in OPERATIONS if n not in SINGLE])
    op, inp, base = prepared(ctx, name)
    m = op.module
    names = [k for k, t in inp.items() if t.is_floating_point()]
    # the generator's filter is meant to stay in double precision
    if not isinstance(m, torch.nn.Module) or name == "td_generator":
        m = torch.nn.Identity()
    f = Functional(ctx, base)
    _, u = directions(ctx, inp, names)
    ctx.params(op=name, names=names,
               shapes={k: tuple(t.shape) for k, t in inp.items()})

    def slope(dtype):
        m.to(dtype)
        leaves = {k: inp[k].to(dtype).requires_grad_() for k in names}
        outs = ctx.call(op.run, **{k: t.clone() for k, t in inp.items()
                                   if k not in leaves}, **leaves)
        total = f(outs)
        if not total.requires_grad:
            return outs, None, 0.0
        got = backward(ctx, name, str(dtype), total, list(leaves.values()))
        terms = torch.cat([(g.double() * u[k]).flatten() for k, g in
                           zip(leaves, got, strict=True) if g is not None])
        return outs, float(terms.sum()), float(terms.norm())

    a, wide, parts = slope(torch.float64)
    b, narrow, _ = slope(torch.float32)
    m.double()
    ctx.event("precisions")
    off = 0.0
    for (s, *_), (t, *_) in zip(a, b, strict=True):
        s, t = s.detach(), t.detach().to(s.dtype)
        top = s.abs().max() if s.numel() else 1
        off = max(off, float(((s - t).abs() / (top + 1e-300)).max()))
    if not off < 1e-4:
        ctx.event("values_differ")  # too much for single precision
        return
    ctx.event("single_precision")
    if not ctx.check((wide is None) == (narrow is None), "graph",
                     f"{name}: a graph in one precision only") or wide is None:
        return
    size = f.size(base)
    ctx.check(abs(wide - narrow) <= 0.03 * parts + 1e-3 * size, "precision",
              f"{name}: the gradient gives {wide:.8g} per unit step in double "
              f"precision, {narrow:.8g} in single", scale=parts, size=size)
    ctx.state(name, tuple(inp[names[0]].shape))
