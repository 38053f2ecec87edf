"""P06: streaming snapshots equal the windows of the whole stream."""

import copy
import io
import pickle

import numpy as np
import torch

from ml4gw.nn.streaming import Snapshotter
from vlib.core import family, to_np

TECHNIQUE = ("history monitor: the concatenated stream of unique ids is the "
             "reference model for every snapshot and state")
NOTE = ("Update histories of several interleaved streams (with saved, "
        "pickled and resumed states) are replayed through one module; every "
        "snapshot is compared bit for bit with its window of the stream.")
RULE = (
    "seeded random sizes, groupings and interleavings; distinct by batch "
    "size class, stride relation, grouping, streams, resume action"
)
ASSUMPTIONS = ["first update of a stream is given no state or the initial one"]
REQUIRED = {"large": 20, "long_histories": 20, "snapshots_checked": 5000, "interleaved_updates": 500,
            "states_resumed": 100}


def setting(ctx):
    snap = ctx.choice([2, 3, ctx.randint(2, 40), ctx.randint(2, 40)])
    stride = ctx.choice([1, snap - 1, ctx.randint(1, snap - 1)])
    B = ctx.choice([1, 2, 3, ctx.randint(1, 10)])
    C = ctx.randint(1, 6)
    groups = None
    if ctx.slot(25) == 24:
        what = ctx.choice(["snap", "B", "C"])
        if what == "snap":
            snap = ctx.choice([1024, ctx.randint(200, 3000)])
            stride = ctx.choice([1, 16, snap // 2, snap - 1])
            B = ctx.randint(1, 4)
        elif what == "B":
            B = ctx.choice([33, 64, 65, 130])
        else:
            C = ctx.choice([16, 17, 40])
        ctx.event("large")
    if ctx.rng.random() < 0.6:
        cut = np.sort(ctx.rng.choice(np.arange(1, C), replace=False,
                                     size=ctx.randint(0, C - 1)))
        e = [0, *cut.tolist(), C]
        groups = [b - a for a, b in zip(e, e[1:])]
        if ctx.slot(3) == 0:
            groups = tuple(groups)
    return snap, stride, B, C, groups


class StreamModel:
    def __init__(self, ctx, C, snap, stride, B, total, dtype, base):
        n = B * stride * total
        self.x = (base + np.arange(1, C * n + 1)).reshape(C, n)
        self.x = torch.from_numpy(self.x.astype(float)).to(dtype)
        if dtype == torch.float64:  # not representable in float32
            self.x = self.x * (1 + 2.0**-45)
        self.pad = np.concatenate(
            [np.zeros((C, snap - stride)), to_np(self.x)], axis=1)
        self.pad = self.pad.astype(to_np(self.x).dtype)
        self.t, self.state = 0, None


def step(ctx, mod, m, cfg):
    snap, stride, B, C, groups = cfg
    u = m.x[:, m.t * B * stride : (m.t + 1) * B * stride]
    if ctx.rng.random() < 0.3:
        u = u.clone()
    if m.state is None:
        k = ctx.randint(0, 2)
        if k == 0:
            out = ctx.call(mod, u)
        elif k == 1:
            out = ctx.call(mod, u, None)
        else:
            init = ctx.call(mod.get_initial_state)
            ctx.need(tuple(init.shape) == (C, snap - stride)
                     and not init.any(), "initial-state", "not zeros")
            out = ctx.call(mod, u, init)
    else:
        out = ctx.call(mod, u, m.state)
    ng = 1 if groups is None else len(groups)
    ctx.need(isinstance(out, (tuple, list)) and len(out) == ng + 1,
             "outputs", f"{len(out)} outputs, expected {ng} + state")
    want = np.stack([
        m.pad[:, (m.t * B + b) * stride : (m.t * B + b) * stride + snap]
        for b in range(B)])
    off = 0
    for g, o in zip(groups or [C], out[:-1]):
        ctx.need(ctx.equal(o, want[:, off : off + g], "snapshots",
                           f"update {m.t}"), "snapshots-wrong")
        off += g
    end = (m.t + 1) * B * stride
    ctx.need(ctx.equal(out[-1], m.pad[:, end : end + snap - stride], "state",
                       f"state after update {m.t}"), "state-wrong")
    m.t += 1
    m.state = out[-1]
    ctx.event("snapshots_checked", B)
    return out


@family("P06", quick=1500, thorough=25000)
def histories(ctx):
    cfg = setting(ctx)
    snap, stride, B, C, groups = cfg
    ns = ctx.choice([1, 1, 2, 3])
    total = ctx.randint(1, 8)
    if ctx.slot(20) == 7:  # a long history
        total = ctx.randint(20, 90)
        ctx.event("long_histories")
    dtype = ctx.choice([torch.float32, torch.float64])
    ctx.params(snapshot=snap, stride=stride, batch=B, channels=C,
               groups=groups, streams=ns, updates=total, dtype=str(dtype))
    mod = ctx.call(Snapshotter, C, snap, stride, B,
                   **({} if groups is None else
                      {"channels_per_snapshot": groups}))
    models = [StreamModel(ctx, C, snap, stride, B, total, torch.float32
                          if dtype == torch.float32 else dtype, 7000 * j)
              for j in range(ns)]
    kept = []
    while True:
        live = [m for m in models if m.t < total]
        if not live:
            break
        m = ctx.choice(live)
        act = ctx.randint(0, 9)
        if m.state is not None and act == 0:  # save and resume
            buf = io.BytesIO()
            torch.save(m.state, buf)
            buf.seek(0)
            m.state = torch.load(buf)
            mod = pickle.loads(pickle.dumps(mod))
            ctx.event("states_resumed")
        elif m.state is not None and act == 1:
            m.state = m.state.clone()
            fresh = Snapshotter(C, snap, stride, B, groups)
            fresh.load_state_dict(mod.state_dict())
            mod = fresh
            ctx.event("states_resumed")
        elif act == 2:
            mod = copy.deepcopy(mod)
        elif act == 3:
            mod.eval() if ctx.slot(2) else mod.train()
        elif m.state is not None and act == 4 and m.t > 0:
            # branch: the same state used twice gives the same answer
            t, s = m.t, m.state
            step(ctx, mod, m, cfg)
            m.t, m.state = t, s
        out = step(ctx, mod, m, cfg)
        kept.append((out, [o.clone() for o in out]))
        if ns > 1:
            ctx.event("interleaved_updates")
    for out, c in kept:
        ctx.check(all(torch.equal(a, b) for a, b in zip(out, c)),
                  "returned-value-changed",
                  "an earlier snapshot or state changed in a later call")
    ctx.state(min(B, 3), stride == 1, stride == snap - 1, 2 * stride > snap,
              B * stride > snap, None if groups is None else len(groups),
              ns, str(dtype))


@family("P06", quick=150, thorough=1000)
def refusals(ctx):
    C = ctx.randint(2, 6)
    snap = ctx.randint(3, 20)
    over = ctx.choice([snap, snap + 1, snap + 7])
    bad = ctx.choice([[C - 1], [C, 1], [C + 1], [1] * (C - 1), [1] * (C + 1)])
    name = ctx.cycle(["stride", "groups", "channels"])
    ctx.params(case=name, C=C, snap=snap)
    if name == "stride":
        ctx.raises(ValueError, "not-refused", Snapshotter, C, snap, over, 2)
    elif name == "groups":
        ctx.raises(ValueError, "not-refused", Snapshotter, C, snap, 1, 2, bad)
    else:
        m = Snapshotter(C, snap, 1, 3, [1, C - 1])
        n = C + ctx.choice([-1, 1])
        ctx.raises((ValueError, RuntimeError), "not-refused", m,
                   torch.zeros(n, 3), torch.zeros(n, snap - 1))
    ctx.state(name)
