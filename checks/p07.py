"""P07: online averaging equals the offline average of the history."""

import copy
import io
import pickle

import numpy as np
import torch

from ml4gw.nn.streaming import OnlineAverager
from vlib.core import family, to_np

TECHNIQUE = ("history monitor: outputs of whole update histories against an "
             "offline average with the complete history in hand")
NOTE = ("Random update histories, interleaved over several streams with "
        "saved/pickled states and regrouped into other batch sizes, are "
        "compared step by step with the offline mean in float64.")
RULE = (
    "seeded random sizes and histories; distinct by batch, number of "
    "updates, offset class, channel count, streams, regrouping"
)
ASSUMPTIONS = ["float rounding: tolerance 1e-6 of the largest prediction"]
REQUIRED = {"large": 12, "long_histories": 20, "outputs_checked": 3000, "regroupings_checked": 100,
            "states_resumed": 50, "interleaved_updates": 300,
            "warmup_outputs": 500}


def offline(preds, n, u, off):
    """preds: (steps, C, L) -> (C, steps*u)"""
    steps, C, L = preds.shape
    x = preds[:, :, L - n * u - off : L - off].astype(np.float64)
    out = np.zeros((C, (steps + n) * u))
    for t in range(steps):
        out[:, t * u : (t + n) * u] += x[t] / n
    return out[:, : steps * u]


@family("P07", quick=1200, thorough=20000)
def histories(ctx):
    u = ctx.choice([1, 2, ctx.randint(1, 12)])
    n = ctx.choice([1, 2, 3, ctx.randint(1, 8)])
    B = ctx.choice([1, 2, 3, ctx.randint(1, 8)])
    C = ctx.randint(1, 4)
    off = ctx.choice([None, None, 0, 1, ctx.randint(0, 9)])
    L = n * u + (off or 0) + ctx.choice([0, 0, 1, ctx.randint(0, 20)])
    calls = ctx.randint(1, 8)
    if ctx.slot(20) == 7:
        calls = ctx.randint(20, 90)
        ctx.event("long_histories")
    elif ctx.slot(25) == 24:
        what = ctx.choice(["u", "n", "B", "C"])
        u = ctx.choice([64, 200, 512]) if what == "u" else u
        n = ctx.choice([17, 32, 40]) if what == "n" else n
        B = ctx.choice([33, 64, 65]) if what == "B" else B
        C = ctx.choice([9, 16, 33]) if what == "C" else C
        L = n * u + (off or 0) + ctx.choice([0, 0, 1, ctx.randint(0, 20)])
        calls = min(calls, 4)
        ctx.event("large")
    ns = ctx.choice([1, 1, 2, 3])
    dtype = ctx.choice([torch.float32, torch.float32, torch.float64])
    ctx.params(update=u, averaged=n, batch=B, channels=C, offset=off,
               length=L, calls=calls, streams=ns, dtype=str(dtype))
    kw = {} if off is None else {"offset": off}
    mod = ctx.call(OnlineAverager, u, B, n, C, **kw)
    if dtype == torch.float64:
        mod = mod.double()
    eps = (1e-6 if dtype == torch.float32 else 1e-13) * (1 + n // 12)
    amp = ctx.choice([1.0, 1.0, 1e-3, 50.0])
    P = [(amp * ctx.rng.standard_normal((calls * B, C, L)) +
          ctx.choice([0, 3.0])).astype(to_np(torch.zeros(1, dtype=dtype)).dtype)
         for _ in range(ns)]
    refs = [offline(p, n, u, off or 0) for p in P]
    t = [0] * ns
    state = [None] * ns
    outs = [[] for _ in range(ns)]
    keep = []
    while min(t) < calls:
        j = ctx.choice([q for q in range(ns) if t[q] < calls])
        act = ctx.randint(0, 9)
        if state[j] is not None and act == 0:
            buf = io.BytesIO()
            torch.save((state[j], mod.state_dict()), buf)
            buf.seek(0)
            state[j], sd = torch.load(buf)
            new = OnlineAverager(u, B, n, C, **kw).to(dtype)
            new.load_state_dict(sd)
            mod = new
            ctx.event("states_resumed")
        elif act == 1:
            mod = pickle.loads(pickle.dumps(mod))
        elif act == 2:
            mod = copy.deepcopy(mod)
        x = torch.from_numpy(P[j][t[j] * B : (t[j] + 1) * B].copy())
        if state[j] is None:
            if ctx.rng.random() < 0.3:
                s0 = ctx.call(mod.get_initial_state)
                ctx.need(tuple(s0.shape) == (C, (n - 1) * u) and not s0.any(),
                         "initial-state", str(tuple(s0.shape)))
                res = ctx.call(mod, x, s0)
            else:
                res = ctx.call(mod, x)
        else:
            res = ctx.call(mod, x, state[j])
            if act == 4:  # using a state does not consume it
                res2 = ctx.call(mod, x, state[j])
                ctx.check(torch.equal(res[0], res2[0])
                          and torch.equal(res[1], res2[1]),
                          "state-consumed", "same state, other answer")
        ctx.need(isinstance(res, (tuple, list)) and len(res) == 2, "outputs",
                 "expected (output, state)")
        out, st = res
        sl = slice(t[j] * B * u, (t[j] + 1) * B * u)
        scale = np.abs(P[j]).max()
        ok = ctx.close(out, refs[j][:, sl], "average",
                       f"stream {j} call {t[j]}", rtol=eps, scale=scale)
        ctx.need(ok, "average-wrong")
        ctx.check(tuple(st.shape) == (C, (n - 1) * u), "state-shape",
                  str(tuple(st.shape)))
        ctx.event("outputs_checked", B)
        if t[j] * B < n - 1:
            ctx.event("warmup_outputs")
        if ns > 1:
            ctx.event("interleaved_updates")
        outs[j].append(to_np(out))
        keep.append((out, out.clone(), st, st.clone()))
        state[j] = st
        t[j] += 1
    for a, b, c, d in keep:
        ctx.check(torch.equal(a, b) and torch.equal(c, d),
                  "returned-value-changed", "an earlier output changed")
    # regroup the same history into another batch size
    steps = calls * B
    divs = [d for d in range(1, steps + 1) if steps % d == 0 and d != B]
    if divs:
        B2 = ctx.choice(divs)
        m2 = ctx.call(OnlineAverager, u, B2, n, C, **kw).to(dtype)
        s2 = ctx.call(m2.get_initial_state)
        o2 = []
        for q in range(steps // B2):
            o, s2 = ctx.call(
                m2, torch.from_numpy(P[0][q * B2 : (q + 1) * B2].copy()), s2)
            o2.append(to_np(o))
        ctx.close(np.concatenate(o2, -1), np.concatenate(outs[0], -1),
                  "regrouping", f"batches of {B2} instead of {B}", rtol=eps,
                  scale=np.abs(P[0]).max())
        ctx.event("regroupings_checked")
    ctx.state(min(B, 4), min(n, 4), off is None, off == 0, u == 1, C > 1, ns,
              str(dtype), L > n * u + (off or 0))
