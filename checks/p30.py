"""P30: norm layers and residual networks compute what is configured."""

import warnings

import numpy as np
import torch
import torch.nn.functional as F

from ml4gw.nn.norm import GroupNorm1D, GroupNorm1DGetter, GroupNorm2DGetter
from ml4gw.nn.resnet.resnet_1d import BottleneckResNet1D, ResNet1D
from ml4gw.nn.resnet.resnet_2d import BottleneckResNet2D, ResNet2D
from vlib.core import family

TECHNIQUE = ("output monitor: norms recomputed in numpy double precision, "
             "gradients against torch's group norm; networks against a "
             "functional evaluation of the same weights driven by the "
             "configuration alone; forward hooks watch time resolution and "
             "identity starts; refusal probes")
NOTE = ("Networks are compared in double precision with randomised norm "
        "parameters and statistics, so swapped or skipped steps show.")
RULE = ("seeded random channels, groups, lengths, layer lists, kernels, "
        "stride kinds, widths, norms, modes; distinct by those classes")
ASSUMPTIONS = ["parameter names in saved states are stable",
               "a single image is large enough for torch's group norm, which "
               "refuses one value per group",
               "torch's own convolutions, pooling and group norm are right"]
REQUIRED = {"large": 30, "norms_checked": 300, "gradients_checked": 120,
            "factories_checked": 100, "networks_checked": 80,
            "bottlenecks": 30, "two_dimensional": 25, "dilated_layers": 15,
            "strided_layers": 40, "identity_blocks": 20, "refusals": 80,
            "train_mode": 15, "single_layer": 6, "offset_input": 60,
            "weights_changed": 40}


def group_norm(x, groups, w, b, eps):
    """numpy, double: x (B, C, ...)"""
    B, C = x.shape[:2]
    g = x.reshape(B, groups, -1)
    m = g.mean(-1, keepdims=True)
    v = ((g - m) ** 2).mean(-1, keepdims=True)
    y = ((g - m) / np.sqrt(v + eps)).reshape(x.shape)
    s = (C,) + (1,) * (x.ndim - 2)
    return y * w.reshape(s) + b.reshape(s)


def groups_of(ctx):
    G = ctx.choice([1, 2, 3, 4, 8])
    C = G * ctx.choice([1, 1, 2, 3, 5, 8])
    return C, G


@family("P30", quick=350, thorough=8000, priority=1)
def norms(ctx):
    C, G = groups_of(ctx)
    given = G
    if G == C and ctx.rng.random() < 0.5:
        given = None
    B = ctx.choice([1, 2, 5])
    L = ctx.choice([1, 2, 3, ctx.randint(2, 30), ctx.randint(30, 400)])
    if ctx.slot(20) == 7:
        B, L = ctx.choice([16, 17, 33, 65, 129]), ctx.randint(1, 40)
        ctx.event("large")
    elif ctx.slot(20) == 13:
        B, L = 1, ctx.choice([1024, 4097, 16384, ctx.randint(500, 20000)])
        ctx.event("large")
    elif ctx.slot(20) == 18:
        given = G = ctx.choice([16, 32, 33])
        C = G * ctx.choice([1, 2, 4])
        ctx.event("large")
    dtype = ctx.choice([torch.float32, torch.float64])
    eps = ctx.choice([1e-5, 1e-5, 1e-3, 1e-8, 0.1])
    scale = 10.0 ** ctx.choice([0, 0, -3, 3, ctx.uniform(-2, 2)])
    offset = ctx.choice([0, 0, 1, 30, 300, 1000]) * scale
    ctx.params(C=C, G=G, given=given, B=B, L=L, eps=eps, scale=scale,
               offset=offset, dtype=str(dtype))
    if eps == 1e-5:
        m = ctx.call(GroupNorm1D, C, given)
    else:
        m = ctx.call(GroupNorm1D, C, given, eps=eps)
    ctx.check(all(bool((p == v).all()) for p, v in
                  ((m.weight, 1), (m.bias, 0))), "start",
              "does not start with unit weight and zero bias")
    with torch.no_grad():
        m.weight.copy_(ctx.randn(C, 1))
        m.bias.copy_(ctx.randn(C, 1))
    m = m.to(dtype)
    x = ctx.randn(B, C, L, dtype=torch.float64) * scale
    sign = torch.tensor(ctx.rng.choice([-1.0, 1.0], (B, 1, 1)))
    x = (x + offset * sign).to(dtype)
    if ctx.rng.random() < 0.1:
        x[:, 0] = float(x[0, 0, 0])
    xc = x.clone()
    x.requires_grad_(True)
    out = ctx.call(m, x)
    ctx.check(torch.equal(x.detach(), xc), "input_altered", "input altered")
    ctx.need(out.shape == x.shape and out.dtype == dtype, "shape",
             f"{tuple(out.shape)} {out.dtype}")
    xd = xc.double().numpy()
    w, b = (p.detach().double().numpy().ravel() for p in (m.weight, m.bias))
    want = group_norm(xd, G, w, b, eps)
    e = 1.2e-7 if dtype == torch.float32 else 2.3e-16
    g = xd.reshape(B, G, -1)
    std = np.sqrt(g.var(-1) + eps)
    # rounding of the input relative to the scatter, also in the variance
    cond = 1 + np.abs(g).max(-1) / std
    with np.errstate(all="ignore"):
        tol = e * cond * (20 + 4 * np.log2(g.shape[-1] + 1))
    ok = tol < 0.1
    tol = np.repeat(tol, C // G, 1)[..., None] * (
        np.abs(w)[:, None] * (2 + np.abs(want)) + np.abs(b)[:, None])
    err = np.abs(out.detach().double().numpy() - want)
    okc = np.repeat(ok, C // G, 1)[..., None]
    ctx.check(not (okc & ~(err <= tol)).any(), "norm",
              "differs from group norm",
              worst=float(np.nanmax(np.where(okc, err / tol, 0))))
    ctx.maximum("norm_error", float(np.max(np.where(okc, err / tol, 0))))
    ctx.event("norms_checked")
    if offset:
        ctx.event("offset_input")
    if L * C // G > 1 and cond.max() < 100:
        up = ctx.randn(B, C, L, dtype=torch.float64)
        ctx.call(out.backward, up.to(dtype))
        ref = [t.detach().double().requires_grad_(True)
               for t in (xc, m.weight[:, 0], m.bias[:, 0])]
        F.group_norm(ref[0], G, ref[1], ref[2], eps).backward(up)
        k = 400 * e * float(cond.max())
        for got, r, what in ((x.grad, ref[0].grad, "input"),
                             (m.weight.grad[:, 0], ref[1].grad, "weight"),
                             (m.bias.grad[:, 0], ref[2].grad, "bias")):
            mag = float((up.abs().max() * (1 + m.weight.abs().max())) *
                        {"input": 6 / std.min(),
                         "weight": B * L, "bias": B * L}[what])
            ctx.close(got, r, "gradient", f"gradient of {what}", rtol=k,
                      atol=k * mag)
        ctx.event("gradients_checked")
    ctx.state("norm", C, G, given is None, min(L, 3), offset > 0,
              str(dtype))


@family("P30", quick=160, thorough=2000)
def factories(ctx):
    two = bool(ctx.slot(2))
    groups = ctx.choice([None, 1, 2, 3, 4, 8, 16])
    C = (groups or 1) * ctx.choice([1, 2, 3]) if ctx.rng.random() < 0.7 else \
        ctx.randint(1, max(1, groups or 5))
    want = C if groups is None else min(C, groups)
    shape = (2, C, 3, 4) if two else (2, C, 7)
    ctx.params(two=two, groups=groups, C=C)
    get = ctx.call(GroupNorm2DGetter if two else GroupNorm1DGetter, groups) \
        if groups or ctx.slot(4) < 2 else \
        ctx.call(GroupNorm2DGetter if two else GroupNorm1DGetter)
    layer = ctx.call(get, C)
    x = ctx.randn(*shape, dtype=torch.float64)
    x *= torch.arange(1.0, C + 1).reshape(-1, *(1,) * (len(shape) - 2))
    with torch.no_grad():
        out = ctx.call(layer.double(), x)
    ctx.close(out, group_norm(x.numpy(), want, np.ones(C), np.zeros(C), 1e-5),
              "factory", f"{groups} groups asked for with {C} channels",
              rtol=1e-8, atol=1e-8)
    if groups:
        bad = ctx.randint(groups + 1, 3 * groups + 1)
        if bad % groups:
            ctx.raises(ValueError, "refuse_groups", get, bad,
                       msg=f"{bad} channels in {groups} groups")
            ctx.event("refusals")
    ctx.event("factories_checked")
    ctx.state("factory", two, groups, C)


def refuse_norm(ctx):
    C, G = ctx.choice([(5, 3), (4, 3), (1, 2), (6, 4)])
    ctx.raises(ValueError, "refuse_groups", GroupNorm1D, C, G, msg=f"{C} {G}")
    x = torch.randn(*ctx.choice([(4,), (2, 4), (1, 2, 4, 4)]))
    ctx.raises(ValueError, "refuse_rank", GroupNorm1D(4), x, msg=f"{x.shape}")


NETS = {(1, False): ResNet1D, (1, True): BottleneckResNet1D,
        (2, False): ResNet2D, (2, True): BottleneckResNet2D}


class Reference:
    """functional evaluation of a saved state, from the configuration"""

    def __init__(self, state, dim, bottle, kernel, layers, strides, groups,
                 width, norm, training):
        self.s = {k: v.detach().double() for k, v in state.items()}
        self.dim, self.bottle, self.kernel = dim, bottle, kernel
        self.layers, self.strides = layers, strides
        self.groups, self.width = groups, width
        self.norm_kind, self.training = norm, training
        self.used = set()

    def get(self, name):
        self.used.add(name)
        return self.s[name]

    def conv(self, x, name, stride=1, dilation=1, groups=1, pad=None):
        w = self.get(name + ".weight")
        k = w.shape[-1]
        f = F.conv1d if self.dim == 1 else F.conv2d
        pad = dilation * (k // 2) if pad is None else pad
        return f(x, w, stride=stride, padding=pad, dilation=dilation,
                 groups=groups)

    def norm(self, x, name):
        w, b = self.get(name + ".weight"), self.get(name + ".bias")
        C = x.shape[1]
        if self.norm_kind == "batch":
            mu, var = (self.get(f"{name}.running_{v}") for v in
                       ("mean", "var"))
            if self.training:
                v = x.transpose(0, 1).reshape(C, -1)
                mu, var = v.mean(1), v.var(1, correction=0)
            s = (1, C) + (1,) * self.dim
            y = (x - mu.reshape(s)) / torch.sqrt(var.reshape(s) + 1e-5)
            return y * w.reshape(s) + b.reshape(s)
        g = C if self.norm_kind is None else min(C, self.norm_kind)
        return torch.tensor(group_norm(x.numpy(), g, w.numpy().ravel(),
                                       b.numpy().ravel(), 1e-5))

    def block(self, x, name, planes, stride, dilation, down):
        out = planes * (4 if self.bottle else 1)
        if self.bottle:
            y = self.norm(self.conv(x, name + ".conv1"), name + ".bn1").relu()
            y = self.conv(y, name + ".conv2", stride, dilation, self.groups)
            y = self.norm(y, name + ".bn2").relu()
            y = self.norm(self.conv(y, name + ".conv3"), name + ".bn3")
        else:
            y = self.conv(x, name + ".conv1", stride)
            y = self.norm(y, name + ".bn1").relu()
            y = self.norm(self.conv(y, name + ".conv2"), name + ".bn2")
        if down:
            x = self.conv(x, name + ".downsample.0", stride)
            x = self.norm(x, name + ".downsample.1")
        assert y.shape[1] == out
        return (y + x).relu()

    def __call__(self, x):
        x = x.double()
        x = self.norm(self.conv(x, "conv1", 2, pad=3), "bn1").relu()
        pool = F.max_pool1d if self.dim == 1 else F.max_pool2d
        x = pool(x, 3, 2, 1)
        exp = 4 if self.bottle else 1
        inplanes, dilation = 64, 1
        sizes = []
        for i, n in enumerate(self.layers):
            planes = 64 * 2**i
            stride, first = 1, dilation
            if i:
                if self.strides[i - 1] == "stride":
                    stride = 2
                else:
                    dilation *= 2
            for j in range(n):
                down = j == 0 and (stride != 1 or inplanes != planes * exp)
                x = self.block(x, f"residual_layers.{i}.{j}", planes,
                               stride if j == 0 else 1,
                               first if j == 0 else dilation, down)
                inplanes = planes * exp
            sizes.append(tuple(x.shape[2:]))
        x = x.flatten(2).mean(-1)
        return x @ self.get("fc.weight").T + self.get("fc.bias"), sizes


def blocks_dilated(layers, strides):
    """dilation of each block, as configured"""
    d, out = 1, [1] * layers[0]
    for n, s in zip(layers[1:], strides, strict=True):
        first = d
        d *= 2 if s == "dilation" else 1
        out += [first] + [d] * (n - 1)
    return out


def factory(dim, norm):
    if norm == "batch":
        return torch.nn.BatchNorm1d if dim == 1 else torch.nn.BatchNorm2d
    if norm is None:
        return None
    return (GroupNorm1DGetter if dim == 1 else GroupNorm2DGetter)(norm)


@family("P30", quick=110, thorough=1600, priority=1)
def networks(ctx):
    dim = ctx.cycle([1, 1, 2])
    bottle = ctx.cycle([False, True], 3)
    deep = ctx.rng.random() < (0.06 if ctx.tier == "quick" else 0.12)
    S = 4 if deep and dim == 1 else ctx.choice([1, 2, 2, 3])
    layers = [ctx.choice([1, 1, 2]) for _ in range(S)]
    strides = None
    if ctx.rng.random() < 0.75:
        p = ctx.choice([0.2, 0.5, 0.8])
        strides = ["dilation" if ctx.rng.random() < p else "stride"
                   for _ in range(S - 1)]
    kernel = ctx.choice([1, 3, 3, 5, 7, 9, 15] if dim == 1 else [1, 3, 3])
    groups, width = 1, 64
    if bottle and ctx.rng.random() < 0.5:
        groups, width = ctx.choice([(2, 32), (4, 16), (1, 16), (8, 4),
                                    (2, 64), (1, 100)])
    norm = ctx.choice([None, None, 1, 4, "batch"])
    if (width, norm) == (100, 4):
        width = 32
    cin, classes = ctx.choice([1, 2, 3, 3, 4, 5, 9]), ctx.randint(1, 5)
    zero = ctx.rng.random() < 0.4
    training = ctx.rng.random() < 0.3
    B = ctx.randint(2, 3) if training and norm == "batch" else \
        ctx.randint(1, 3)
    L = (ctx.choice([ctx.randint(1, 20), ctx.randint(20, 200),
                     ctx.randint(60, 130)]),)
    if dim == 2:
        # torch's own group norm refuses a single value per group, so one
        # image alone has to be large enough to leave two
        L = (ctx.randint(1, 40), ctx.randint(1, 40) if B > 1 else 40)
    if ctx.slot(20) == 4 and dim == 1:
        L = (ctx.randint(500, 2500),)
        ctx.event("large")
    elif ctx.slot(20) == 11:
        B, L = ctx.choice([9, 17, 33]), (ctx.randint(4, 20),) * dim
        ctx.event("large")
    elif ctx.slot(20) == 16:
        layers[ctx.randint(0, S - 1)] = ctx.randint(3, 4)
    real = strides or ["stride"] * (S - 1)
    ctx.params(dim=dim, bottle=bottle, layers=layers, strides=strides,
               kernel=kernel, groups=groups, width=width, norm=norm, cin=cin,
               classes=classes, zero=zero, training=training, B=B, L=L)
    Net = NETS[dim, bottle]
    args = dict(kernel_size=kernel, zero_init_residual=zero, groups=groups,
                width_per_group=width, stride_type=strides,
                norm_layer=factory(dim, norm))
    given = None if strides is None else list(strides)
    lcopy = list(layers)
    if not bottle and max(blocks_dilated(layers, real)) > 1:
        ctx.raises(NotImplementedError, "refuse_dilation", Net, cin, layers,
                   classes, **args, msg=f"{layers} {strides}")
        ctx.event("refusals")
        return
    net = ctx.call(Net, cin, layers, classes, **args)
    ctx.check(lcopy == layers and given == strides, "input_altered",
              "configuration altered")
    net = net.double()
    net.train(training)
    x = ctx.randn(B, cin, *L, dtype=torch.float64)
    seen, inner = {}, {}

    def watch(store, key):
        return lambda m, i, o: store.__setitem__(
            key, (i[0].detach().clone(), o.detach().clone()))

    def run():
        hooks = []
        for i, layer in enumerate(net.residual_layers):
            hooks.append(layer.register_forward_hook(watch(seen, i)))
            for j, blk in enumerate(layer):
                hooks.append(blk.register_forward_hook(watch(inner, (i, j))))
        with torch.no_grad():
            out = ctx.call(net, x)
        for h in hooks:
            h.remove()
        return out

    if zero:
        run()
        for (i, j), (a, b) in inner.items():
            if j:
                ctx.check(torch.equal(a, b), "identity", f"block {i},{j} "
                          "does not start as an identity")
                ctx.event("identity_blocks")
            else:
                d = net.residual_layers[i][j].downsample
                if d is not None and norm != "batch":
                    with torch.no_grad():
                        skip = d(a).relu()
                    ctx.close(b, skip, "identity", f"block {i},{j} does not "
                              "start as its skip path", rtol=1e-9, atol=1e-9)
                    ctx.event("identity_blocks")
    # parameters as training may leave them
    with torch.no_grad():
        for name, p in net.named_parameters():
            if p.ndim < 3:
                p += 0.5 * ctx.randn(*p.shape, dtype=torch.float64)
        for name, p in net.named_buffers():
            if "running_mean" in name:
                p += 0.5 * ctx.randn(*p.shape, dtype=torch.float64)
            if "running_var" in name:
                p *= torch.tensor(ctx.uniform(0.3, 3, p.shape))
    state = {k: v.clone() for k, v in net.state_dict().items()}
    xc = x.clone()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = run()
    finally:
        ctx.check(torch.equal(x, xc), "input_altered", "input altered")
    ctx.need(tuple(out.shape) == (B, classes), "shape",
             f"{tuple(out.shape)} for {B} x {classes}")
    ref = Reference(state, dim, bottle, kernel, layers, real, groups, width,
                    norm, training)
    want, sizes = ref(x)
    left = [k for k in ref.s if k not in ref.used
            and "running" not in k and "num_batches" not in k]
    ctx.check(not left, "unused", f"weights the configuration does not call "
              f"for: {left[:4]}")
    ctx.close(out, want, "network", "differs from the evaluation of its "
              "weights", rtol=1e-6, atol=1e-6)
    widths = ref.s["residual_layers.0.0.conv1.weight"].shape[0]
    ctx.check(widths == (int(64 * width / 64) * groups if bottle else 64),
              "width", f"{widths} feature maps for {groups} of {width}")
    for i in range(S):
        a, b = (tuple(v.shape[2:]) for v in seen[i])
        half = i and real[i - 1] == "stride"
        ctx.check(b == tuple((v + 1) // 2 if half else v for v in a),
                  "resolution", f"layer {i}: {a} to {b}, "
                  f"{real[i - 1] if i else 'first'}")
        if i:
            ctx.event("strided_layers" if half else "dilated_layers")
    if not training:
        T = {k: v + 0.05 * v.abs().mean() * ctx.randn(*v.shape,
                                                      dtype=torch.float64)
             if v.is_floating_point() and "running" not in k else v
             for k, v in state.items()}
        ctx.call(net.load_state_dict, T)
        ref.s = {k: v.double() for k, v in T.items()}
        ctx.close(run(), ref(x)[0], "weights", "weights changed after a call "
                  "are not followed", rtol=1e-6, atol=1e-6)
        ctx.event("weights_changed")
    ctx.event("networks_checked")
    if bottle:
        ctx.event("bottlenecks")
    if dim == 2:
        ctx.event("two_dimensional")
    if training:
        ctx.event("train_mode")
    if S == 1:
        ctx.event("single_layer")
    ctx.state("net", dim, bottle, S, real, norm, zero, training, kernel,
              groups)


@family("P30", quick=100, thorough=800)
def refusals(ctx):
    dim, bottle = ctx.cycle([(1, False), (1, True), (2, False), (2, True)])
    Net = NETS[dim, bottle]
    kind = ctx.cycle(["kernel", "stride_count", "stride_name", "groups",
                      "width", "norm"], 4)
    S = ctx.choice([2, 3])
    layers = [1] * S
    ctx.params(dim=dim, bottle=bottle, kind=kind, S=S)
    kw, exc = {}, ValueError
    if kind == "kernel":
        kw = {"kernel_size": ctx.choice([2, 4, 6])}
    elif kind == "stride_count":
        kw = {"stride_type": ["stride"] * ctx.choice([S, S + 1, S - 2])}
    elif kind == "stride_name":
        kw = {"stride_type": ["stride"] * (S - 2) + [ctx.choice(
            ["strided", "dilate", "", "none"])]}
    elif kind == "norm":
        refuse_norm(ctx)
        ctx.event("refusals")
        ctx.state("refuse", kind)
        return
    elif bottle:
        # supported there
        net = ctx.call(Net, 1, layers, 2, groups=2, width_per_group=16)
        ctx.call(net, torch.randn(1, 1, *(20,) * dim))
        ctx.event("supported")
        ctx.state("refuse", kind, dim, bottle)
        return
    elif kind == "groups":
        kw = {"groups": ctx.choice([2, 4])}
    else:
        kw = {"width_per_group": ctx.choice([32, 128])}
    ctx.raises(exc, f"refuse_{kind}", Net, 1, layers, 2, **kw, msg=f"{kw}")
    ctx.event("refusals")
    ctx.state("refuse", kind, dim, bottle)
