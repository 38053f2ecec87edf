"""P35: a saved state restores a module completely."""

import copy
import io

import torch

from checks.p33 import ALL
from ml4gw.nn.streaming import OnlineAverager, Snapshotter
from ml4gw.transforms import ChannelWiseScaler, FixedWhiten, SnrRescaler
from vlib import ops as O
from vlib.core import Ctx, family

TECHNIQUE = ("runtime monitor: a module whose history is restored from a "
             "saved state into another of the same configuration, with state "
             "and outputs of the two compared, then each perturbed while the "
             "other is watched")
NOTE = ("Every module of the P32/P33 registry and the streaming modules; "
        "targets freshly initialised at random, already used, already "
        "trained or fitted to other data, and with their floating-point "
        "state overwritten by noise; states handed over directly, through a "
        "weights-only file, by assignment and inside a larger module; "
        "training continued on both sides; conversion to double precision "
        "and back.")
RULE = ("seeded random configuration, history, way of loading; distinct by "
        "module, history and way")
ASSUMPTIONS = ["two modules count as identically configured when they are "
               "built from the same arguments"]
EXTRA = {}


def extra(fn):
    EXTRA[fn.__name__] = fn
    return fn


@extra
def averager(ctx):
    u, b, n, c = (ctx.randint(1, 6), ctx.randint(1, 4), ctx.randint(2, 5),
                  ctx.randint(1, 3))
    off = ctx.choice([None, ctx.randint(0, 3)])
    m = OnlineAverager(u, b, n, c, offset=off)
    y = O.data(ctx, b, c, u * n + (off or 0), dtype=torch.float32)
    s = O.data(ctx, c, u * (n - 1), dtype=torch.float32)

    def run(y, s):
        return [(t, None, None) for t in m(y, s)]

    return O.Op(run, {"y": (y, None, None), "s": (s, None, None)}, m)


@extra
def snapshotter(ctx):
    c, stride, b = ctx.randint(1, 3), ctx.randint(1, 5), ctx.randint(1, 4)
    size = stride + ctx.randint(1, 9)
    m = Snapshotter(c, size, stride, b)
    x = O.data(ctx, c, stride * b, dtype=torch.float32)
    s = O.data(ctx, c, size - stride, dtype=torch.float32)

    def run(x, s):
        return [(t, None, None) for t in m(x, s)]

    return O.Op(run, {"x": (x, None, None), "s": (s, None, None)}, m)


REGISTRY = {**ALL, **EXTRA}
NETS = ["resnet_1d", "resnet_2d", "s4_layer", "s4_model", "autoencoder"]
MODULES = ["projector", "snr_rescaler", "welch", "cross_spectrum",
           "whiten_module", "fixed_whiten", "scaler", "q_transform", "q_tile",
           "q_scan", "spline_1d", "spline_2d", "decimator", "heterodyne",
           "tophat", "leaky", "iir", "spectrogram", "pearson", "group_norm",
           "taylor_f2", "phenom_d", "phenom_p", "sine_gaussian", "ringdown",
           "td_generator", *EXTRA, *NETS, *NETS]
# the constants of these are one and the same tensor in all instances
SHARED = {"phenom_d", "phenom_p", "td_generator"}
WAYS = ["direct", "file", "nested", "assign", "twice"]
REQUIRED = {"restored": 350, "independence": 250, "trained_on": 60,
            "fitted": 60, "recast": 100, "state_entries": 4000,
            **{f"way_{w}": 40 for w in WAYS},
            **{f"before_{b}": 40 for b in ("fresh", "used", "noise")},
            **{f"module_{n}": 4 for n in set(MODULES)}}


def build(ctx, name, torch_seed):
    """the configuration of this case, with other random initial values"""
    sub = Ctx("P35", name, ctx.i, ctx.seed, ctx.tier)
    torch.manual_seed(torch_seed)
    return REGISTRY[name](sub)


def evaluate(op, inp, seed=0):
    torch.manual_seed(seed)
    with torch.no_grad():
        return [t.clone() for t, *_ in
                op.run(**{k: t.clone() for k, t in inp.items()})]


def saved(m):
    return {k: t.detach().clone() for k, t in m.state_dict().items()}


def same_state(ctx, a, b, kind, what):
    if not ctx.check(list(a) == list(b), kind, f"{what}: entries differ",
                     only=sorted(set(a) ^ set(b))):
        return
    for k in a:
        ctx.equal(a[k], b[k], kind, f"{what}: {k}")
    ctx.event("state_entries", len(a))


def same_outputs(ctx, op, a, b, kind, what, factor=1):
    for j, (s, t) in enumerate(zip(a, b, strict=True)):
        ctx.check(s.dtype == t.dtype, kind, f"{what}: {s.dtype}, {t.dtype}")
        ctx.close(s, t, kind, f"{what}: output {j}", rtol=factor * op.tol,
                  scale="max", atol=op.atol)


def private(name, m):
    """a copy of the constants that all instances share"""
    if name not in SHARED:
        return
    for sub in m.modules():
        for k, t in sub._buffers.items():
            sub._buffers[k] = None if t is None else t.clone()


def scramble(ctx, m, size=1.0):
    with torch.no_grad():
        for t in m.state_dict().values():
            if t.is_floating_point() or t.is_complex():
                noise = torch.tensor(ctx.rng.standard_normal(t.shape))
                t.copy_(t + size * noise)


class Parent(torch.nn.Module):
    def __init__(self, child):
        super().__init__()
        self.first = torch.nn.Linear(2, 2)
        self.child = child


def load(ctx, way, target, source, what):
    sd = source.state_dict()
    ctx.event(f"way_{way}")
    if way == "file":
        f = io.BytesIO()
        torch.save(sd, f)
        f.seek(0)
        sd = ctx.call(torch.load, f, weights_only=True)
    elif way == "assign":
        ctx.call(target.load_state_dict, copy.deepcopy(sd), assign=True)
        return
    elif way == "nested":
        p = Parent(target)
        r = ctx.call(p.load_state_dict, Parent(source).state_dict())
        ctx.check(not r.missing_keys and not r.unexpected_keys, "keys",
                  f"{what}: {r}")
        return
    elif way == "twice":
        ctx.call(target.load_state_dict, saved(target))
    r = ctx.call(target.load_state_dict, sd)
    ctx.check(not r.missing_keys and not r.unexpected_keys, "keys",
              f"{what}: {r}")


def history(ctx, name, tgt, inp):
    """what happened to the target before"""
    before = ctx.choice(["fresh", "used", "noise"])
    ctx.event(f"before_{before}")
    m = tgt.module
    if before != "fresh":
        for _ in range(ctx.randint(1, 2)):
            ctx.call(evaluate, tgt, inp)
    private(name, m)
    if before == "noise":
        scramble(ctx, m)
        if ctx.rng.random() < 0.5:
            try:
                evaluate(tgt, inp)
            except Exception:  # nonsense values may well be refused
                ctx.event("nonsense_refused")
    return before


@family("P35", quick=480, thorough=9000, priority=1)
def restore(ctx):
    name = ctx.cycle(MODULES)
    src, tgt = build(ctx, name, 1), build(ctx, name, 2)
    way = ctx.choice(WAYS)
    inp = {k: v[0] for k, v in src.inputs.items()}
    m, n = src.module, tgt.module
    ctx.params(op=name, way=way)
    private(name, m)
    perturbed = name in NETS or ctx.rng.random() < 0.3
    if name in NETS:
        scramble(ctx, m, 0.02)
    base = evaluate(src, inp)
    state = saved(m)
    before = history(ctx, name, tgt, inp)
    what = f"{name} ({way}, {before})"
    load(ctx, way, n, m, what)
    same_state(ctx, saved(n), state, "state", what)
    same_state(ctx, saved(m), state, "source_state", what)
    same_outputs(ctx, src, ctx.call(evaluate, tgt, inp), base, "outputs", what)
    same_outputs(ctx, src, ctx.call(evaluate, src, inp), base,
                 "source_outputs", what)
    ctx.event("restored")
    ctx.event(f"module_{name}")
    ctx.state(name, way, before, perturbed)
    if name in SHARED:
        return
    # whatever happens to one afterwards leaves the other alone
    a, b = (m, n) if ctx.slot(2) else (n, m)
    oa, ob = (src, tgt) if a is m else (tgt, src)
    scramble(ctx, a)
    same_state(ctx, saved(b), state, "aliased_state", what)
    same_outputs(ctx, src, ctx.call(evaluate, ob, inp), base,
                 "aliased_outputs", what)
    # and the state can be put back
    with torch.no_grad():
        ctx.call(a.load_state_dict, state)
    same_outputs(ctx, src, ctx.call(evaluate, oa, inp), base, "put_back", what)
    ctx.event("independence")


def train(op, inp, steps, seed, lr=0.01):
    """some steps of training, with the losses met"""
    m = op.module
    m.train()
    for p in m.parameters():
        p.requires_grad_(True)
    opt = torch.optim.SGD(m.parameters(), lr=lr)
    out = []
    for j in range(steps):
        torch.manual_seed(seed + j)
        x = {k: t + j for k, t in inp.items()}
        loss = sum((t**2).mean() for t, *_ in op.run(**x))
        opt.zero_grad()
        loss.backward()
        torch.nn.utils.clip_grad_norm_(m.parameters(), 1.0)
        opt.step()
        out.append(loss.detach())
    return torch.stack(out)


@family("P35", quick=100, thorough=2000)
def training(ctx):
    """networks handed over in the middle of their training"""
    name = ctx.cycle(NETS)
    src, tgt = build(ctx, name, 1), build(ctx, name, 2)
    way = ctx.choice(WAYS)
    inp = {k: v[0] for k, v in src.inputs.items()}
    if next(iter(inp.values())).shape[0] < 2:
        inp = {k: torch.cat([t, 2 * t]) for k, t in inp.items()}
    m, n = src.module, tgt.module
    steps = ctx.randint(1, 3)
    ctx.call(train, src, inp, steps, ctx.i)
    other = ctx.rng.random() < 0.5
    if other:
        ctx.call(train, tgt, inp, ctx.randint(1, 2), ctx.i + 50)
    what = f"{name} ({way}, after {steps} steps)"
    ctx.params(op=name, way=way, steps=steps, target_trained=other)
    for _ in range(ctx.randint(0, 1)):
        m.eval()
        evaluate(src, inp)
    load(ctx, way, n, m, what)
    same_state(ctx, saved(n), saved(m), "state", what)
    for op in (src, tgt):
        op.module.eval()
    same_outputs(ctx, src, ctx.call(evaluate, tgt, inp),
                 ctx.call(evaluate, src, inp), "trained_outputs", what)
    more = ctx.randint(1, 3)
    a = ctx.call(train, src, inp, more, ctx.i + 100)
    b = ctx.call(train, tgt, inp, more, ctx.i + 100)
    ctx.close(b, a, "losses", f"{what}: training goes on differently",
              rtol=1e-6)
    x, y = saved(m), saved(n)
    for k in x:
        ctx.close(y[k], x[k], "later_state", f"{what}: {k} after {more} more "
                  "steps", rtol=1e-5, scale="max", atol=1e-9)
    for op in (src, tgt):
        op.module.eval()
    same_outputs(ctx, src, ctx.call(evaluate, tgt, inp),
                 ctx.call(evaluate, src, inp), "later_outputs", what,
                 factor=100)
    ctx.event("trained_on")
    ctx.state(name, way, steps, other, more)


@family("P35", quick=90, thorough=2000)
def fitted(ctx):
    """fitted transforms: the target unfitted or fitted to something else"""
    kind = ctx.cycle(["scaler", "whiten", "rescaler"])
    C, fs = ctx.randint(1, 3), 64
    dt = ctx.choice([torch.float32, torch.float64])
    way = ctx.choice(WAYS)

    hp, lp = ctx.choice([None, 5]), ctx.choice([None, 25])

    def new():
        if kind == "scaler":
            return ChannelWiseScaler(C)
        if kind == "whiten":
            return FixedWhiten(C, 4, fs, dtype=dt)
        return SnrRescaler(C, fs, 2, hp, lp, dtype=dt)

    def fit(m):
        x = O.data(ctx, C, fs * 16, dtype=torch.float64)
        x *= ctx.loguniform(0.1, 10)
        if kind == "scaler":
            ctx.call(m.fit, x + ctx.uniform(-3, 3))
        elif kind == "whiten":
            ctx.call(m.fit, ctx.choice([0.5, 1, 2]), *x, fftlength=2,
                     highpass=hp, lowpass=lp)
        else:
            ctx.call(m.fit, *x, fftlength=ctx.choice([1, 2]))

    length = {"scaler": 50, "whiten": 4 * fs, "rescaler": 2 * fs}[kind]
    x = O.data(ctx, 3, C, length, dtype=dt)

    def run(m):
        torch.manual_seed(3)
        out = m(x.clone())
        return out if isinstance(out, tuple) else (out,)

    src, tgt = new(), new()
    if ctx.rng.random() < 0.3:
        fit(src)
    fit(src)
    already = ctx.rng.random() < 0.5
    if already:
        fit(tgt)
        ctx.call(run, tgt)
    what = f"{kind} ({way}, target fitted: {already})"
    ctx.params(kind=kind, way=way, fitted=already, C=C, dtype=dt)
    base = [t.clone() for t in ctx.call(run, src)]
    state = saved(src)
    if way == "twice" and not already:
        way = "direct"
    load(ctx, way, tgt, src, what)
    same_state(ctx, saved(tgt), state, "state", what)
    for s, t in zip(ctx.call(run, tgt), base, strict=True):
        ctx.close(s, t, "fitted_outputs", what, rtol=1e-5, scale="max",
                  dtype=t.dtype)
    # fitting either to new data again leaves the other alone
    a, b = (src, tgt) if ctx.slot(2) else (tgt, src)
    fit(a)
    same_state(ctx, saved(b), state, "aliased_state", what)
    for s, t in zip(ctx.call(run, b), base, strict=True):
        ctx.close(s, t, "aliased_outputs", what, rtol=1e-5, scale="max")
    ctx.event("fitted")
    ctx.state(kind, way, already, str(dt), C)


@family("P35", quick=200, thorough=4000)
def recast(ctx):
    """double precision and back changes nothing"""
    name = ctx.cycle(MODULES)
    op = build(ctx, name, 1)
    m = op.module
    kinds = {t.dtype for t in [*m.parameters(), *m.buffers()]
             if t.is_floating_point()}
    if torch.float64 in kinds:
        if name not in NETS and name != "group_norm":
            ctx.event("nothing_to_recast")
            return
        m.float()
        op.inputs = {k: (v[0].float(), *v[1:]) for k, v in op.inputs.items()}
        op.tol, op.atol = 1e-4, 1e-6
    inp = {k: v[0] for k, v in op.inputs.items()}
    private(name, m)
    base = evaluate(op, inp)
    state = saved(m)
    ctx.call(m.double)
    if ctx.rng.random() < 0.5:
        wide = {k: t.double() if t.is_floating_point() else t
                for k, t in inp.items()}
        try:
            evaluate(op, wide)
        except Exception:  # not every module takes double precision
            ctx.event("no_double_precision")
    ctx.call(m.float)
    ctx.params(op=name)
    same_state(ctx, saved(m), state, "recast_state", name)
    same_outputs(ctx, op, ctx.call(evaluate, op, inp), base, "recast", name)
    ctx.event("recast")
    ctx.state(name, tuple(sorted(map(str, kinds))))
