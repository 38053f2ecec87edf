"""P31: autoencoders decode to the input's shape and pair skip states."""

import functools

import numpy as np
import torch
import torch.nn.functional as F

from ml4gw.nn.autoencoder import (
    AddSkipConnect,
    Autoencoder,
    ConcatSkipConnect,
    ConvolutionalAutoencoder,
    SkipConnection,
)
from ml4gw.nn.autoencoder.utils import match_size
from ml4gw.nn.norm import GroupNorm1DGetter
from vlib.core import family

TECHNIQUE = ("trace monitor: recording skip connections and blocks log which "
             "state meets which decoding stage; output monitor: whole "
             "autoencoders against a functional evaluation of the same "
             "weights driven by the configuration; refusal probes")
NOTE = ("Weights and norm statistics are randomised and compared in double "
        "precision; sizes and pairings exactly.")
RULE = ("seeded random depths, channels, kernels, strides, groups, skip "
        "kinds, activations, norms, modes and lengths; distinct by those "
        "classes")
ASSUMPTIONS = ["parameter names in saved states are stable",
               "inputs are long enough for every encoding convolution"]
REQUIRED = {"large": 20, "whole_checked": 150, "pairs_seen": 150, "by_hand": 120,
            "traces": 100, "refusals": 120, "skip_add": 25,
            "skip_concat": 25, "skip_none": 25, "grouped": 40,
            "undivided_length": 60, "activations_checked": 60,
            "sizes_matched": 200, "concat_checked": 80, "multi_output": 25,
            "weights_changed": 100}

ACTS = {"relu": (torch.nn.ReLU, F.relu),
        "tanh": (torch.nn.Tanh, torch.tanh),
        "sigmoid": (torch.nn.Sigmoid, torch.sigmoid),
        "identity": (torch.nn.Identity, lambda x: x),
        "leaky": (functools.partial(torch.nn.LeakyReLU, 0.3),
                  lambda x: torch.where(x < 0, 0.3 * x, x)),
        "elu": (torch.nn.ELU, F.elu)}


def recording(kind, log, groups=1):
    base = {"add": AddSkipConnect, "concat": ConcatSkipConnect,
            "match": SkipConnection}[kind]

    class Recorder(base):
        def forward(self, X, state):
            out = super().forward(X, state)
            log.append((X.detach().clone(), state.detach().clone(),
                        out.detach().clone()))
            return out

    return Recorder(groups) if kind == "concat" else Recorder()


def fit(x, n):
    """(reference) pad or crop the last axis evenly to n"""
    d = n - x.shape[-1]
    left = d // 2
    if d >= 0:
        return F.pad(x, (left, d - left))
    return x[..., -left : x.shape[-1] + (d - left)]


def join(x, s, groups):
    c = x.shape[1] // groups
    parts = []
    for g in range(groups):
        parts += [x[:, g * c : (g + 1) * c], s[:, g * c : (g + 1) * c]]
    return torch.cat(parts, 1)


def norm_out(x, s, name, kind, training):
    w, b = s[name + ".weight"].ravel(), s[name + ".bias"].ravel()
    C = x.shape[1]
    if kind == "batch":
        v = x.transpose(0, 1).reshape(C, -1)
        if training:
            mu, var = v.mean(1), v.var(1, correction=0)
        else:
            mu, var = s[name + ".running_mean"], s[name + ".running_var"]
        y = (x - mu[:, None]) / torch.sqrt(var[:, None] + 1e-5)
    else:
        g = x.reshape(x.shape[0], C, -1)
        y = (g - g.mean(-1, keepdim=True)) / torch.sqrt(
            g.var(-1, correction=0, keepdim=True) + 1e-5)
    return y * w[:, None] + b[:, None]


@family("P31", quick=260, thorough=6000, priority=1)
def whole(ctx):
    depth = ctx.choice([1, 2, 2, 3, 3, 4])
    groups = ctx.choice([1, 1, 2, 3, 4])
    k = ctx.choice([1, 2, 3, 3, 4, 5, 7, 8])
    s = ctx.choice([1, 2, 2, 3, 4])
    enc = [ctx.randint(1, 5) for _ in range(depth)]
    cin = groups * ctx.randint(1, 3)
    dec = ctx.choice([None, groups * ctx.randint(1, 4)])
    skip = ctx.cycle([None, "add", "concat", "match"])
    act = ctx.choice(list(ACTS))
    out_act = ctx.choice([None, *ACTS])
    form = ctx.choice(["class", "class", "instance"])
    norm = ctx.choice(["batch", "batch", "group"])
    training = ctx.rng.random() < 0.3
    B = ctx.randint(2, 3) if training else ctx.randint(1, 3)
    if ctx.slot(20) == 6:
        B = ctx.choice([9, 17, 33, 65])
        ctx.event("large")
    elif ctx.slot(20) == 13:
        enc = [ctx.choice([16, 17, 33, ctx.randint(1, 20)])
               for _ in range(depth)]
        ctx.event("large")
    elif ctx.slot(20) == 19:
        depth = ctx.choice([5, 6])
        enc = [ctx.randint(1, 5) for _ in range(depth)]
        s = min(s, 2)
        ctx.event("large")
    p = (k - 1) // 2
    L = ctx.randint(500, 4000) if ctx.slot(20) == 9 else \
        ctx.randint(1, 60) if ctx.rng.random() < 0.5 else \
        ctx.randint(1, 4) * s**depth
    while True:
        sizes, ok = [L], True
        for _ in range(depth):
            if sizes[-1] + 2 * p < k:
                ok = False
                break
            sizes.append((sizes[-1] + 2 * p - k) // s + 1)
        if ok:
            break
        L += 1
    ctx.params(depth=depth, groups=groups, k=k, s=s, enc=enc, cin=cin,
               dec=dec, skip=skip, act=act, out_act=out_act, form=form,
               norm=norm, training=training, B=B, L=L)
    log = []
    kw = {}
    if out_act is not None:
        kw["output_activation"] = ACTS[out_act][0]
        if form == "instance":
            kw["output_activation"] = kw["output_activation"]()
    if norm == "group":
        kw["norm"] = GroupNorm1DGetter()
    if skip:
        kw["skip_connection"] = recording(skip, log, groups)
    if dec is not None or ctx.slot(2):
        kw["decode_channels"] = dec
    if act != "relu" or ctx.slot(2):
        kw["activation"] = ACTS[act][0]
    given = list(enc)
    m = ctx.call(ConvolutionalAutoencoder, cin, enc, k, stride=s,
                 groups=groups, **kw)
    ctx.check(enc == given, "input_altered", "channel list altered")
    m = m.double()
    m.train(training)
    with torch.no_grad():
        for name, v in m.named_parameters():
            if "norm" in name:
                v += 0.5 * ctx.randn(*v.shape, dtype=torch.float64)
        for name, v in m.named_buffers():
            if "running_mean" in name:
                v += 0.5 * ctx.randn(*v.shape, dtype=torch.float64)
            if "running_var" in name:
                v *= torch.tensor(ctx.uniform(0.3, 3, v.shape))
    S = {n: v.detach().clone() for n, v in m.state_dict().items()}
    x = ctx.randn(B, cin, L, dtype=torch.float64)
    xc = x.clone()
    with torch.no_grad():
        out = ctx.call(m, x)
    ctx.check(torch.equal(x, xc), "input_altered", "input altered")
    want_shape = (B, dec or cin, L)
    ctx.need(isinstance(out, torch.Tensor) and tuple(out.shape) == want_shape,
             "shape", f"{getattr(out, 'shape', out)} for {want_shape}")
    # functional evaluation
    fa, fo = ACTS[act][1], ACTS[out_act or act][1]

    def evaluate(S):
        h, states = x, []
        for i in range(depth):
            h = F.conv1d(h, S[f"blocks.{i}.encode_layer.weight"], stride=s,
                         padding=p, groups=groups)
            h = fa(norm_out(h, S, f"blocks.{i}.encode_norm", norm, training))
            states.append(h)
        pairs = []
        for i in reversed(range(depth)):
            h = F.conv_transpose1d(h, S[f"blocks.{i}.decode_layer.weight"],
                                   stride=s, padding=p, groups=groups)
            h = norm_out(h, S, f"blocks.{i}.decode_norm", norm, training)
            h = fa(h) if i else fo(h)
            if i and skip:
                z = states[i - 1]
                y = fit(h, z.shape[-1])
                pairs.append((h, z))
                h = y + z if skip == "add" else join(y, z, groups) \
                    if skip == "concat" else y
        return fit(h, L), pairs

    want, pairs = evaluate(S)
    ctx.close(out, want, "whole", "differs from the evaluation of its weights",
              rtol=1e-7, atol=1e-7)
    used = sum(1 for n in S if n.endswith("layer.weight"))
    ctx.check(used == 2 * depth, "stages", f"{used} convolutions")
    ctx.check(len(log) == (depth - 1 if skip else 0), "pairs",
              f"{len(log)} skip connections at depth {depth}")
    for (a, b, c), (wa, wb) in zip(log, pairs, strict=False):
        ctx.close(a, wa, "pair_stage", "decoded tensor of another stage",
                  rtol=1e-7, atol=1e-7)
        ctx.close(b, wb, "pair_state", "state of another depth", rtol=1e-7,
                  atol=1e-7)
        ctx.event("pairs_seen")
    if L % s**depth:
        ctx.event("undivided_length")
    if groups > 1:
        ctx.event("grouped")
    if out_act not in (None, act):
        ctx.event("activations_checked")
    ctx.event("whole_checked")
    ctx.event(f"skip_{skip or 'none'}")
    if not training:
        with torch.no_grad():
            n = ctx.randint(1, L + 9)
            if skip:
                z, st = ctx.call(m.encode, x, return_states=True)
                ctx.need(len(st) == depth - 1, "states",
                         f"{len(st)} states at depth {depth}")
                if ctx.slot(3) == 0:
                    st = tuple(st)
                keep = [v.clone() for v in st]
                hand = ctx.call(m.decode, z, states=st, input_size=L)
                other = ctx.call(m.decode, z, states=st, input_size=n)
                plain = ctx.call(m.decode, z, states=st)
                ctx.check(len(st) == depth - 1 and all(
                    torch.equal(a, b) for a, b in zip(st, keep, strict=True)),
                    "input_altered", "states altered")
                bad = list(st) + [z] if ctx.slot(2) or depth == 1 else \
                    list(st)[1:]
                ctx.raises(ValueError, "refuse_states", m.decode, z,
                           states=bad, msg=f"{len(bad)} states at {depth}")
                ctx.raises(ValueError, "refuse_no_states", m.decode, z,
                           msg="states missing")
                ctx.event("refusals")
                z2 = ctx.call(m.encode, x)
                ctx.equal(z2, z, "encode", "encoding depends on whether "
                          "states are asked for")
            else:
                z = ctx.call(m.encode, x)
                hand = ctx.call(m.decode, z, input_size=L)
                other = ctx.call(m.decode, z, input_size=n)
                plain = ctx.call(m.decode, z)
            ctx.equal(hand, out, "by_hand", "encoding then decoding differs "
                      "from the whole")
            ctx.equal(fit(plain, L), out, "by_hand", "matching the size "
                      "afterwards differs from the whole")
            ctx.equal(other, fit(plain, n), "by_hand",
                      f"decoded to {n} samples")
            ctx.event("by_hand")
            ctx.equal(ctx.call(m, x), out, "repeat", "a second call differs")
            # other weights in the same module
            T = {n: v + 0.3 * ctx.randn(*v.shape, dtype=torch.float64)
                 if v.is_floating_point() and "running" not in n else v
                 for n, v in S.items()}
            ctx.call(m.load_state_dict, T)
            ctx.close(ctx.call(m, x), evaluate(T)[0], "weights", "weights "
                      "changed after a call are not followed", rtol=1e-7,
                      atol=1e-7)
            ctx.event("weights_changed")
    ctx.state("whole", depth, groups, k, s, skip, norm, training,
              dec is None)


class Toy(torch.nn.Module):
    """a block that writes down what it is given"""

    def __init__(self, i, log, multi):
        super().__init__()
        self.i, self.log, self.multi = i, log, multi

    def encode(self, *X):
        self.log.append(("encode", self.i, X))
        y = X[0] * 2 + self.i + 1
        return (y, X[0] + 7) if self.multi else y

    def decode(self, *X):
        self.log.append(("decode", self.i, X))
        y = X[0] * 3 - self.i
        return y


class ToySkip(torch.nn.Module):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def forward(self, X, state):
        self.log.append(("skip", X, state))
        return X + 1000 * (state[0] if isinstance(state, tuple) else state)


@family("P31", quick=160, thorough=2000, priority=1)
def trace(ctx):
    """order of stages, and which state meets which stage, in the base"""
    n = ctx.randint(1, 7)
    skip = ctx.choice([True, True, False])
    multi = ctx.rng.random() < 0.3
    args = 2 if ctx.rng.random() < 0.3 else 1
    ctx.params(n=n, skip=skip, multi=multi, args=args)
    log = []
    m = ctx.call(Autoencoder, ToySkip(log) if skip else None)
    for i in range(n):
        m.blocks.append(Toy(i, log, multi))
    x = [torch.arange(4, dtype=torch.float64) + 10 * j for j in range(args)]
    out = ctx.call(m, *x)
    # what must have happened
    want, states, X = [], [], tuple(x)
    for i in range(n):
        want.append(("encode", i, X))
        y = X[0] * 2 + i + 1
        y = (y, X[0] + 7) if multi else y
        states.append(y)
        X = y if multi else (y,)
    for i in reversed(range(n)):
        want.append(("decode", i, X))
        y = X[0] * 3 - i
        if skip and i:
            want.append(("skip", y, states[i - 1]))
            z = states[i - 1]
            y = y + 1000 * (z[0] if multi else z)
        X = (y,)

    def flat(v):
        if isinstance(v, torch.Tensor):
            return [v]
        if isinstance(v, (tuple, list)):
            return [t for u in v for t in flat(u)]
        return []

    ctx.check([(e[0], e[1] if e[0] != "skip" else None) for e in log]
              == [(e[0], e[1] if e[0] != "skip" else None) for e in want],
              "order", f"stages ran as {[e[:2] for e in log if e[0] != 'skip']}")
    for a, b in zip(log, want, strict=False):
        fa, fb = flat(a), flat(b)
        ctx.check(len(fa) == len(fb) and all(
            torch.equal(u, v) for u, v in zip(fa, fb, strict=False)),
            "handed", f"{b[0]} was handed something else")
        if b[0] == "skip":
            ctx.event("pairs_seen")
    ctx.equal(out, X[0], "trace_result", "result of the stages")
    if skip:
        z, st = ctx.call(m.encode, *x, return_states=True)
        z = z if isinstance(z, tuple) else (z,)
        ctx.equal(ctx.call(m.decode, *z, states=st), out, "by_hand",
                  "encoding then decoding differs from the whole")
        for k in {0, n - 2, n, n + 1} - {n - 1, -1}:
            ctx.raises(ValueError, "refuse_states", m.decode, *z,
                       states=[z[0]] * k, msg=f"{k} states, {n} blocks")
            ctx.event("refusals")
    else:
        z = ctx.call(m.encode, *x)
        z = z if isinstance(z, tuple) else (z,)
        ctx.equal(ctx.call(m.decode, *z), out, "by_hand",
                  "encoding then decoding differs from the whole")
    if multi:
        ctx.event("multi_output")
    ctx.event("traces")
    ctx.event("by_hand")
    ctx.state("trace", n, skip, multi, args)


@family("P31", quick=300, thorough=3000)
def sizes(ctx):
    """padding and cropping to a size, directly and in skip connections"""
    n, t = ctx.randint(1, 30), ctx.randint(1, 30)
    if ctx.slot(20) == 4:
        n, t = ctx.randint(30, 3000), ctx.randint(1, 3000)
    if ctx.slot(3) == 0:
        t = max(1, n + ctx.randint(-4, 4))
    B, C = ctx.randint(1, 3), ctx.randint(1, 3)
    x = 1 + torch.arange(B * C * n).reshape(B, C, n).double()
    ctx.params(n=n, t=t, B=B, C=C)
    out = ctx.call(match_size, x, t)
    ctx.need(tuple(out.shape) == (B, C, t), "size", f"{tuple(out.shape)} "
             f"from {n} to {t}")
    ok = False
    for left in {(t - n) // 2, -((n - t) // 2)}:
        idx = torch.arange(t) - left
        inside = (idx >= 0) & (idx < n)
        want = torch.where(inside, x[..., idx.clamp(0, n - 1)], 0.0)
        ok |= torch.equal(out, want)
    ctx.check(ok, "size", f"{n} samples are not padded or cropped evenly "
              f"to {t}", got=out[0, 0].tolist())
    state = torch.randn(B, C, t).double()
    ctx.equal(ctx.call(AddSkipConnect(), x, state), out + state, "add",
              "sum with the state")
    ctx.equal(ctx.call(SkipConnection(), x, state), out, "match",
              "plain skip connection")
    ctx.check(AddSkipConnect().get_out_channels(C) == C
              and SkipConnection().get_out_channels(C) == C
              and ConcatSkipConnect().get_out_channels(C) == 2 * C,
              "channels", "channel counts")
    ctx.event("sizes_matched")
    ctx.state("size", np.sign(t - n), abs(t - n) % 2, min(abs(t - n), 4))


@family("P31", quick=160, thorough=1500)
def concat(ctx):
    """channels of each group stay together"""
    G = ctx.choice([1, 2, 2, 3, 4, 6])
    c = ctx.randint(1, 6)
    C = G * c
    B, L, M = ctx.randint(1, 3), ctx.randint(1, 12), ctx.randint(1, 12)
    ctx.params(G=G, c=c, L=L, M=M)
    m = ctx.call(ConcatSkipConnect, G)
    x, s = torch.randn(B, C, L), torch.randn(B, C, M)
    xc, sc = x.clone(), s.clone()
    out = ctx.call(m, x, s)
    ctx.need(tuple(out.shape) == (B, m.get_out_channels(C), M), "shape",
             f"{tuple(out.shape)}")
    ctx.check(torch.equal(x, xc) and torch.equal(s, sc), "input_altered",
              "inputs altered")
    y = fit(x, M)
    for g in range(G):
        part = out[:, 2 * g * c : 2 * (g + 1) * c]
        want = [v[:, g * c + j] for v in (y, s) for j in range(c)]
        got = [part[:, j] for j in range(2 * c)]
        left = list(range(2 * c))
        for w in want:
            hit = [j for j in left if torch.equal(got[j], w)]
            ctx.check(bool(hit), "groups", f"group {g} of {G}: a channel is "
                      "in another group's place", C=C)
            if hit:
                left.remove(hit[0])
    ctx.event("concat_checked")
    if G > 1:
        bad = ctx.choice([0, C]) + ctx.randint(1, G - 1)
        ctx.raises(ValueError, "refuse_concat", m, torch.randn(B, bad, L),
                   torch.randn(B, bad, L), msg=f"{bad} channels, {G} groups")
        ctx.event("refusals")
    ctx.state("concat", G, min(c, 3), L > M, L < M)
