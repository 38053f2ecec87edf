"""P32: batched results equal per-element results in the same order."""

import torch

from ml4gw.waveforms import IMRPhenomD, TaylorF2
from ml4gw.waveforms.conversion import (
    chirp_mass_and_mass_ratio_to_components,
)
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator
from vlib.core import family
from vlib.ops import OPS

TECHNIQUE = ("metamorphic monitor over a registry of every batched public "
             "operation: the output is compared with that of a permuted, "
             "split, duplicated or extended batch, or one whose other "
             "elements have been replaced by hostile values")
NOTE = ("Comparison within rounding of each row's largest value, exact for "
        "indexing operations. The Q scan chooses one Q for the whole batch "
        "by design and is judged by P19.")
RULE = ("seeded random choice of operation configuration, batch size, "
        "transformation and hostile values; distinct by operation, "
        "transformation, hostile value and batch size")
ASSUMPTIONS = ["time-domain generation takes the frequency resolution the "
               "longest signal of the batch needs, so there the longest is "
               "kept when others are replaced"]
OPERATIONS = list(OPS)
KINDS = ["permute", "split", "single", "duplicate", "hostile", "extend",
         "channels"]
REQUIRED = {"operations_checked": 500, "rows_compared": 3000,
            **{f"op_{n}": 8 for n in OPERATIONS},
            **{f"kind_{k}": 40 for k in KINDS}, "generator": 10}


def take(op, idx):
    return {k: t if b is None else t.index_select(b, idx)
            for k, (t, b, _) in op.inputs.items()}


def plain(op):
    return {k: t.clone() for k, (t, _, _) in op.inputs.items()}


def hostile_value(t, kind):
    if not t.dtype.is_floating_point:
        return torch.zeros_like(t)
    v = {"nan": float("nan"), "inf": float("inf"), "zero": 0.0,
         "huge": 1e25, "tiny": 1e-30}[kind]
    return torch.full_like(t, v)


def hostile_run(ctx, op, inp):
    """the batch as a whole may be refused where the operation says so"""
    try:
        return op.run(**inp)
    except op.refuse as e:
        ctx.event("refused_hostile")
        ctx.state("refused", type(e).__name__, str(e)[:40])
        return None
    except Exception as e:
        ctx.violate("hostile_exception", f"{type(e).__name__}: {e}")
        return None


def compare(ctx, op, kind, base, other, idx, what):
    """rows ``idx`` of base against all rows of other"""
    ctx.need(len(base) == len(other), kind, f"{what}: number of outputs")
    for (a, ab, _), (b, bb, _) in zip(base, other, strict=True):
        want = a.index_select(ab, idx).movedim(ab, 0)
        got = b.movedim(bb, 0)
        rows(ctx, op, kind, want, got, what)


def rows(ctx, op, kind, want, got, what):
    if want.dtype.is_complex:
        want, got = torch.view_as_real(want), torch.view_as_real(got)
    ctx.need(want.shape == got.shape and want.dtype == got.dtype, kind,
             f"{what}: {tuple(got.shape)} {got.dtype} for "
             f"{tuple(want.shape)} {want.dtype}")
    if not want.numel():
        return
    want, got = want.double(), got.double()
    if want.ndim == 1:
        want, got = want[:, None], got[:, None]
    same = (want == got) | (want.isnan() & got.isnan())
    top = want.nan_to_num(0, 0, 0).abs().flatten(1).amax(1)
    top = top.reshape(-1, *(1,) * (want.ndim - 1))
    tol = 0 if op.exact else op.tol * top + op.atol
    err = (want - got).abs()
    bad = ~same & ~(err <= tol)
    ctx.check(not bool(bad.any()), kind, f"{what}: an element depends on the "
              "rest of the batch", elements=bad.flatten(1).any(1).nonzero()
              .flatten().tolist()[:6], want=want[bad][:3].tolist(),
              got=got[bad][:3].tolist())
    if not op.exact:
        r = (err / (tol + 1e-300))[torch.isfinite(err) & ~same]
        if r.numel():
            ctx.maximum("error_over_tolerance", float(r.max()))
    ctx.event("rows_compared", want.shape[0])


@family("P32", quick=2600, thorough=40000, priority=1)
def operations(ctx):
    name = ctx.cycle(OPERATIONS)
    op = OPS[name](ctx)
    kind = ctx.choice(KINDS)
    if kind == "channels" and not op.channels:
        kind = ctx.choice(KINDS[:-1])
    B = op.batch if kind != "channels" else None
    ctx.params(op=name, kind=kind, B=op.batch, dtype=str(op.dtype),
               shapes={k: tuple(v[0].shape) for k, v in op.inputs.items()})
    with torch.no_grad():
        base = ctx.call(op.run, **plain(op))
        if kind == "channels":
            C = op.width
            idx = torch.tensor(ctx.rng.permutation(C))
            if ctx.rng.random() < 0.5:
                idx = idx[: ctx.randint(1, C)]
            inp = {k: t if c is None else t.index_select(c, idx)
                   for k, (t, _, c) in op.inputs.items()}
            other = ctx.call(op.run, **inp)
            for (a, ab, ac), (b, _, bc) in zip(base, other, strict=True):
                want = a.index_select(ac, idx).movedim(ac, 0)
                rows(ctx, op, kind, want, b.movedim(bc, 0),
                     f"{name}, channels {idx.tolist()} of {C}")
            if C > 1 and op.hostile:
                # the other channels hostile
                c0 = ctx.randint(0, C - 1)
                h = ctx.choice(op.hostile)
                inp = {}
                for k, (t, _, c) in op.inputs.items():
                    if c is None:
                        inp[k] = t
                        continue
                    v = hostile_value(t, h)
                    v.select(c, c0).copy_(t.select(c, c0))
                    inp[k] = v
                other = ctx.call(op.run, **inp)
                for (a, _, ac), (b, _, bc) in zip(base, other, strict=True):
                    rows(ctx, op, kind, a.select(ac, c0)[None],
                         b.select(bc, c0)[None],
                         f"{name}, other channels {h}")
        elif kind in ("permute", "duplicate", "extend", "single"):
            if kind == "permute":
                idx = torch.tensor(ctx.rng.permutation(B))
            elif kind == "single":
                idx = torch.tensor([ctx.randint(0, B - 1)])
            elif kind == "duplicate":
                idx = torch.tensor(ctx.rng.integers(0, B,
                                                    ctx.randint(1, 3 * B)))
            else:
                idx = torch.cat([torch.arange(B), torch.tensor(
                    ctx.rng.integers(0, B, ctx.randint(1, 9)))])
            inp = take(op, idx)
            if kind == "extend" and op.hostile and ctx.rng.random() < 0.6:
                h = ctx.choice(op.hostile)
                inp = {k: t if op.inputs[k][1] is None else torch.cat(
                    [t.narrow(op.inputs[k][1], 0, B),
                     hostile_value(t.narrow(op.inputs[k][1], B, len(idx) - B),
                                   h)], op.inputs[k][1])
                    for k, t in inp.items()}
                other = hostile_run(ctx, op, inp)
                if other is None:
                    return
                for (a, ab, _), (b, bb, _) in zip(base, other, strict=True):
                    rows(ctx, op, kind, a.movedim(ab, 0),
                         b.movedim(bb, 0)[:B], f"{name}, extended by {h}")
            else:
                other = ctx.call(op.run, **inp)
                compare(ctx, op, kind, base, other, idx,
                        f"{name}, elements {idx.tolist()[:9]} of {B}")
        elif kind == "split":
            cut = sorted({0, B, *ctx.rng.integers(0, B + 1, 2).tolist()})
            for lo, hi in zip(cut[:-1], cut[1:], strict=True):
                idx = torch.arange(lo, hi)
                other = ctx.call(op.run, **take(op, idx))
                compare(ctx, op, kind, base, other, idx,
                        f"{name}, elements {lo} to {hi} of {B}")
        else:
            keep = ctx.randint(0, B - 1)
            h = ctx.choice(op.hostile)
            inp = {}
            for k, (t, b, _) in op.inputs.items():
                if b is None:
                    inp[k] = t
                    continue
                v = hostile_value(t, h)
                v.select(b, keep).copy_(t.select(b, keep))
                inp[k] = v
            other = hostile_run(ctx, op, inp)
            if other is None:
                return
            for (a, ab, _), (b, bb, _) in zip(base, other, strict=True):
                rows(ctx, op, kind, a.select(ab, keep)[None],
                     b.select(bb, keep)[None], f"{name}, others {h}")
            ctx.state("hostile", name, h, min(B, 3))
    ctx.event("operations_checked")
    ctx.event(f"op_{name}")
    ctx.event(f"kind_{kind}")
    ctx.state("op", name, kind, op.batch, str(op.dtype))


@family("P32", quick=24, thorough=300)
def generator(ctx):
    """time-domain generation: same signals while the longest one stays"""
    fs, duration = 512, 2.0
    B = ctx.randint(2, 5)
    model = ctx.choice([TaylorF2, IMRPhenomD])
    g = ctx.call(TimeDomainCBCWaveformGenerator, model(), fs, duration, 30,
                 30, 0.3)
    q = torch.tensor(ctx.uniform(0.3, 1, B))
    mc = torch.tensor(ctx.uniform(20, 40, B))
    mc[0] = 12.0

    def pars(mc):
        m1, m2 = chirp_mass_and_mass_ratio_to_components(mc, q)
        z = torch.zeros(B, dtype=torch.float64)
        return {"mass_1": m1, "mass_2": m2, "chirp_mass": mc,
                "mass_ratio": q, "s1z": z + 0.1, "s2z": z - 0.2,
                "chi1": z + 0.1, "chi2": z - 0.2, "distance": z + 500,
                "phic": z + 0.3, "inclination": z + 0.7}

    ctx.params(model=model.__name__, B=B)
    p = pars(mc)
    base = ctx.call(g, **p)
    kind = ctx.cycle(["permute", "replace", "duplicate"])
    keep = [0, ctx.randint(1, B - 1)]
    if kind == "replace":
        new = mc.clone()
        for i in range(1, B):
            if i != keep[1]:
                new[i] = ctx.uniform(20, 60)
        other = ctx.call(g, **pars(new))
        pairs = [(i, i) for i in keep]
    else:
        idx = torch.tensor(ctx.rng.permutation(B))
        if kind == "duplicate":
            idx = torch.cat([idx, idx[:2]])
        other = ctx.call(g, **{k: v[idx] for k, v in p.items()})
        pairs = [(int(i), j) for j, i in enumerate(idx)]
    for a, b in zip(base, other, strict=True):
        for i, j in pairs:
            top = float(a[i].abs().max())
            e = float((a[i] - b[j]).abs().max())
            ctx.check(e <= 1e-3 * top, f"generator_{kind}",
                      f"element {i}: {e / top:.3g} of its peak")
            ctx.maximum("generator_error", e / top)
            ctx.event("rows_compared")
    ctx.event("generator")
    ctx.event("operations_checked")
    ctx.state("generator", kind, model.__name__, B)
