"""P10: histories of fit/load/save/call on fittable transforms."""

import copy
import io

import numpy as np
import torch

from ml4gw.transforms import ChannelWiseScaler, FixedWhiten, SnrRescaler
from ml4gw.transforms.transform import FittableTransform
from vlib.core import family, to_np
from vlib.ids import layout

TECHNIQUE = ("runtime monitor: outcome of every operation in random "
             "fit/load/save/call histories against a lifecycle model")
NOTE = ("Random histories of good and rejected fits, complete, partial, empty "
        "and mis-shaped loads, save/load into fresh instances (bare, nested "
        "and through a file), copies and calls are run on each fittable "
        "transform; every call must refuse or answer as a lifecycle model "
        "says, and scaler values are checked in closed form.")
RULE = ("random operation histories over transform type and configuration; "
        "distinct by type, last operations and model state")
ASSUMPTIONS = ["a loaded state counts as complete when it has every entry of "
               "the transform's own state dict"]
REQUIRED = {"large": 40, "calls_refused": 300, "calls_answered": 500, "loads_checked": 300,
            "fits_checked": 500, "scaler_values": 20000}


class Two(FittableTransform):
    """what a user's own transform looks like"""

    def __init__(self, n):
        super().__init__()
        self.register_buffer("a", torch.zeros(n))
        self.register_buffer("b", torch.zeros(n, 2))

    def fit(self, x):
        if len(x) != len(self.a):
            raise ValueError("wrong length")
        self.build(a=x * 2, b=torch.stack([x, -x], -1))

    def forward(self, x):
        return x * self.a + self.b.sum(-1) + self.b[:, 0]


class Kind:
    """a transform type: how to make, fit, mis-fit and call it"""

    def __init__(self, ctx):
        self.C = ctx.randint(1, 4)
        if ctx.slot(20) < 2:
            self.C = ctx.choice([5, 8, 9, 16, 17, 33])
            ctx.event("large")
        self.init(ctx)

    def init(self, ctx):
        pass


class Scaler(Kind):
    cls = ChannelWiseScaler

    def init(self, ctx):
        self.nc = None if ctx.slot(3) == 0 else self.C
        self.T = ctx.randint(5, 40)

    def make(self):
        return ChannelWiseScaler(self.nc)

    def data(self, ctx):
        s = (self.T,) if self.nc is None else (self.C, self.T)
        x = ctx.randn(*s) * ctx.loguniform(0.01, 100) + ctx.uniform(-5, 5)
        return [x.to(ctx.choice([torch.float32, torch.float64]))], {}

    def bad(self, ctx):
        C = self.nc or 3
        opts = [[torch.randn(C + 1, 8)], [torch.randn(2, C, 8)]]
        if self.nc is not None:
            opts.append([torch.randn(8)])
        return ctx.choice(opts), {}

    def x(self, ctx):
        s = (self.T,) if self.nc is None else (self.C, self.T)
        return ctx.randn(*(ctx.choice([(), (2,)]) + s))


class White(Kind):
    cls = FixedWhiten

    def init(self, ctx):
        self.N = ctx.randint(16, 60)
        self.sr = ctx.choice([64, 128.0])
        self.pad = ctx.randint(1, self.N // 2 - 2)

    def make(self):
        return FixedWhiten(self.C, (self.N + 0.25) / self.sr, self.sr)

    def data(self, ctx):
        fd = (2 * ctx.randint(1, self.N // 2 - 2) + 0.5) / self.sr
        kw = {}
        if ctx.slot(2):
            d = [ctx.randn(6 * self.N) for _ in range(self.C)]
            kw["fftlength"] = ctx.choice([self.N, self.N + 3]) / self.sr
        else:
            n = ctx.choice([self.N // 2 + 1, self.N])
            d = [torch.from_numpy(ctx.uniform(0.5, 2, n))
                 for _ in range(self.C)]
        if ctx.slot(3):
            kw["highpass"] = 0.1 * self.sr
        return [fd, *d], kw

    def bad(self, ctx):
        (fd, *d), kw = self.data(ctx)
        how = ctx.choice(["count", "count2", "short"])
        if how == "short":
            kw["fftlength"] = 2.0
            d = [torch.randn(5) for _ in d]
        elif how == "count":
            d = d[:-1]
        else:
            d = d + d[:1]
        return [fd, *d], kw

    def x(self, ctx):
        return ctx.randn(2, self.C, self.N)


class Snr(Kind):
    cls = SnrRescaler

    def init(self, ctx):
        self.N = ctx.randint(16, 60)
        self.sr = 64
        self.kw = {}
        if ctx.slot(2):
            self.kw = dict(highpass=5.0)
        if ctx.slot(3):
            self.kw["lowpass"] = 25.0

    def make(self):
        return SnrRescaler(self.C, self.sr, (self.N + 0.25) / self.sr,
                           **self.kw)

    def data(self, ctx):
        if ctx.slot(2):
            d = [ctx.randn(6 * self.N) for _ in range(self.C)]
            return d, dict(fftlength=ctx.choice([self.N, self.N + 3]) / 64)
        n = ctx.choice([self.N // 2 + 1, self.N])
        return [torch.from_numpy(ctx.uniform(0.5, 2, n))
                for _ in range(self.C)], {}

    def bad(self, ctx):
        d, kw = self.data(ctx)
        if ctx.slot(2) and ctx.rng.random() < 0.5:
            return [torch.randn(5) for _ in d], dict(fftlength=2.0)
        return ctx.choice([d[:-1], d + d[:1]]), kw

    def x(self, ctx):
        return ctx.randn(3, self.C, self.N)

    def call(self, m, x):
        return m(x, torch.tensor([3.0, 5.0, 8.0]))[0]


class User(Kind):
    cls = Two

    def make(self):
        return Two(self.C)

    def data(self, ctx):
        return [ctx.randn(self.C).float()], {}

    def bad(self, ctx):
        return [torch.randn(self.C + 1)], {}

    def x(self, ctx):
        return ctx.randn(2, self.C)


KINDS = [Scaler, White, Snr, User]


def call(k, m, x):
    return k.call(m, x) if hasattr(k, "call") else m(x)


class Holder(torch.nn.Module):
    def __init__(self, m):
        super().__init__()
        self.pre = torch.nn.Linear(2, 2)
        self.inner = torch.nn.ModuleList([m])


def transfer(ctx, src, dst):
    """save src's state and load it into dst one way or another"""
    how = ctx.choice(["plain", "file", "nested", "assign", "extra"])
    sd = src.state_dict()
    if how == "nested":
        ctx.call(Holder(dst).load_state_dict, Holder(src).state_dict())
    elif how == "file":
        f = io.BytesIO()
        torch.save(sd, f)
        f.seek(0)
        ctx.call(dst.load_state_dict, torch.load(f))
    elif how == "assign":
        ctx.call(dst.load_state_dict, copy.deepcopy(sd), assign=True)
    elif how == "extra":
        sd = dict(sd)
        sd["something_else"] = torch.zeros(1)
        ctx.call(dst.load_state_dict, sd, strict=False)
    else:
        ctx.call(dst.load_state_dict, sd)
    ctx.event("loads_checked")
    return how


def expect(ctx, k, m, model, op):
    """the outcome of one call must be what the model says"""
    x = k.x(ctx)
    if model is None:
        ctx.raises(ValueError, "unfitted-runs", call, k, m, x,
                   msg=f"{k.cls.__name__} after {op}")
        ctx.event("calls_refused")
        return
    ctx.equal(ctx.call(call, k, m, x), ctx.call(call, k, model, x),
              "state-lost", f"{k.cls.__name__} after {op}")
    ctx.event("calls_answered")


@family("P10", quick=800, thorough=12000)
def histories(ctx):
    k = ctx.cycle(KINDS)(ctx)
    m = k.make()
    model = None  # a fresh instance fitted once, on the latest data
    ops = ["call"]
    ctx.params(transform=k.cls.__name__, channels=k.C)
    for step in range(
                      ctx.randint(4, 10) if ctx.slot(25) else 30):
        op = ctx.choice(["fit", "bad-fit", "partial", "empty", "misshaped",
                         "load", "save", "copy", "foreign"])
        if op == "fit":
            a, kw = k.data(ctx)
            a = [layout(ctx, v) if torch.is_tensor(v) else v for v in a]
            before = [v.clone() if torch.is_tensor(v) else v for v in a]
            ctx.call(m.fit, *a, **kw)
            for v, w in zip(a, before):
                if torch.is_tensor(v):
                    ctx.equal(v, w, "fit-changed-data", "")
            model = k.make()
            ctx.call(model.fit, *a, **kw)  # (same memory layout)
            if ctx.slot(2):  # the parameters are the transform's own
                for v in a:
                    if torch.is_tensor(v):
                        v.fill_(1e9)
            ctx.event("fits_checked")
        elif op == "bad-fit":
            a, kw = k.bad(ctx)
            ctx.raises((ValueError, AssertionError, RuntimeError),
                       "bad-fit-accepted", m.fit, *a, **kw)
        elif op in ("partial", "misshaped") and model is None:
            src = k.make()
            a, kw = k.data(ctx)
            ctx.call(src.fit, *a, **kw)
            sd = dict(src.state_dict())
            name = ctx.choice(sorted(sd))
            if op == "partial":
                del sd[name]
            else:
                sd[name] = torch.ones(*sd[name].shape, 3)
            strict = bool(ctx.rng.integers(2))
            if op == "partial" and not strict:
                ctx.call(m.load_state_dict, sd, strict=False)
            else:
                ctx.raises(RuntimeError, "bad-load-accepted",
                           m.load_state_dict, sd, strict=strict)
            ctx.event("loads_checked")
        elif op == "empty":
            if ctx.rng.integers(2):
                ctx.call(m.load_state_dict, {}, strict=False)
            else:
                ctx.call(Holder(m).load_state_dict,
                         {"pre.bias": torch.zeros(2)}, strict=False)
            ctx.event("loads_checked")
        elif op == "foreign" and model is None:
            ctx.call(m.load_state_dict, {"q": torch.zeros(2)}, strict=False)
            ctx.event("loads_checked")
        elif op == "load":
            src = k.make()
            a, kw = k.data(ctx)
            ctx.call(src.fit, *a, **kw)
            op += "-" + transfer(ctx, src, m)
            model = src
        elif op == "save" and model is not None:
            fresh = k.make()
            expect(ctx, k, fresh, None, "construction")
            op += "-" + transfer(ctx, m, fresh)
            m = fresh
        elif op == "copy":
            if ctx.rng.integers(2):
                m = copy.deepcopy(m)
            elif k.cls is not Two:
                f = io.BytesIO()
                torch.save(m, f)
                f.seek(0)
                m = torch.load(f, weights_only=False)
        ops.append(op)
        expect(ctx, k, m, model, " > ".join(ops))
        if ctx.rng.random() < 0.3:  # calling is no fitting
            expect(ctx, k, m, model, "a second call")
        ctx.state(k.cls.__name__, ops[-2], op, model is not None)


@family("P10", quick=300, thorough=5000)
def scaler(ctx):
    """values of the channel scaler in closed form"""
    C = ctx.randint(1, 5)
    T = ctx.choice([2, 3, ctx.randint(4, 400)])
    if ctx.slot(10) == 3:
        T = ctx.choice([1024, 4096, 16384, 65536, 70001,
                        ctx.randint(400, 200000)])
        ctx.event("large")
    elif ctx.slot(10) == 6:
        C = ctx.choice([8, 16, 17, 32, 33, 64, 65, 128, 130, 257])
        ctx.event("large")
    one = ctx.slot(3) == 0
    dt = ctx.choice([torch.float32, torch.float64])
    mod = ctx.choice([torch.float32, torch.float64])
    shape = (T,) if one else (C, T)
    mean = ctx.uniform(-3, 3, shape[:-1] + (1,))
    std = ctx.loguniform(0.05, 20, shape[:-1] + (1,))
    x = ctx.rng.standard_normal(shape)
    # strain amplitudes, where single precision still has their squares
    amp = ctx.choice([1.0, 1.0, 1e8, 1e-15]) if torch.float32 in (dt, mod) \
        else ctx.choice([1.0, 1.0, 1e-21, 1e-30, 1e12])
    mean, std = mean * amp, std * amp
    x = torch.from_numpy(x * std + mean).to(dt)
    s = ctx.call(ChannelWiseScaler, None if one else C).to(mod)
    reg = ctx.choice([None, 0.0, amp * float(ctx.loguniform(1e-3, 10))])
    kw = {} if reg is None else dict(std_reg=reg)
    ctx.params(amp=amp, shape=shape, dtype=str(dt), module=str(mod), reg=reg)
    keep = x.clone()
    ctx.call(s.fit, layout(ctx, x), **kw)
    ctx.equal(x, keep, "fit-changed-data", "")
    xn = to_np(x).astype(float)
    mu = xn.mean(-1, keepdims=True)
    sd = xn.std(-1, keepdims=True) + (reg or 0)
    e = 1e-11 if dt == mod == torch.float64 else 4e-6
    top = np.abs(xn).max(-1, keepdims=True)
    tol = e * (1 + top / sd)
    lead = ctx.choice([(), (3,), (2, 3)])
    if ctx.slot(10) == 8:
        lead = ctx.choice([(33,), (65,), (129,), (300,), (2, 1, 3)])
    # the fitted data themselves, and others
    ctx.close(ctx.call(s, x), (xn - mu) / sd, "standardise", "own data",
              rtol=0, atol=tol * np.maximum(1, np.abs((xn - mu) / sd)))
    if reg in (None, 0.0):
        y = to_np(ctx.call(s, x)).astype(float)
        ctx.check((np.abs(y.mean(-1, keepdims=True)) < tol).all(),
                  "standardise", "mean of scaled data")
        ctx.check((np.abs(y.std(-1, keepdims=True) - 1) < tol).all(),
                  "standardise", "standard deviation of scaled data")
    z = ctx.randn(*(lead + shape))
    want = (to_np(z) - mu) / sd
    ctx.close(ctx.call(s, z), want, "scale-other", "other data", rtol=e,
              atol=tol)
    want = to_np(z) * sd + mu
    ctx.close(ctx.call(s, z, reverse=True), want, "reverse", "", rtol=e,
              atol=e * (sd + np.abs(mu)) * 5)
    back = ctx.call(s, ctx.call(s, z), True)
    ctx.close(back, to_np(z), "round-trip", "forward then reverse",
              rtol=e, atol=e * (np.abs(to_np(z)).max() + np.abs(mu) + sd) * 4)
    ctx.event("scaler_values", want.size)
    ctx.state("scaler", one, C, len(lead), str(dt), str(mod), reg is None)
