"""Monitor runtime: one *case* is one execution of the real code under a
seeded workload, observed by an oracle.

A case gets a Ctx.  ``ctx.check``/``ctx.close`` are the oracles' verdicts; a
failed one is recorded as a violation (with the witness) and the case goes on.
``ctx.event`` counts what the monitors observed, ``ctx.state`` records the
distinct non-trivial situations seen.
"""

from __future__ import annotations

import hashlib
import math
import os
import random
import traceback
import zlib
from collections import Counter

import numpy as np
import torch

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class Abort(BaseException):
    """Stop the current case: a violation has been recorded."""


class Inconclusive(BaseException):
    """The harness could not decide this case."""


FAMILIES: dict[str, list] = {}


class Family:
    def __init__(self, name, fn, quick, thorough, priority):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough
        self.priority = priority


def family(pid, quick, thorough=None, name=None, priority=0):
    def deco(fn):
        FAMILIES.setdefault(pid, []).append(
            Family(
                name or fn.__name__,
                fn,
                quick,
                thorough if thorough is not None else quick * 10,
                priority,
            )
        )
        return fn

    return deco


def short(v, n=240):
    if isinstance(v, torch.Tensor):
        v = v.detach()
        s = f"tensor{tuple(v.shape)}:{v.dtype}"
        if v.numel() <= 8:
            s += f"={v.tolist()}"
        return s
    if isinstance(v, np.ndarray):
        s = f"array{v.shape}:{v.dtype}"
        if v.size <= 8:
            s += f"={v.tolist()}"
        return s
    if isinstance(v, float):
        return repr(v)
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def to_np(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().resolve_conj().resolve_neg()
        return x.numpy()
    return np.asarray(x)


class Ctx:
    def __init__(self, pid, fam, index, seed, tier):
        self.pid, self.fam, self.i = pid, fam, index
        self.seed, self.tier = seed, tier
        key = f"{pid}/{fam}/{index}/{seed}"
        h = hashlib.sha256(key.encode()).digest()
        self.rng = np.random.default_rng(np.frombuffer(h, dtype=np.uint32))
        s = int.from_bytes(h[:4], "little")
        torch.manual_seed(s)
        np.random.seed(s % (2**32))
        random.seed(s)
        self.events: Counter = Counter()
        self.states: set = set()
        self.violations: list = []
        self.samples: list = []
        self.maxima: dict = {}
        self.context: dict = {}
        self._cycles = 0

    # ---- bookkeeping -----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += int(n)

    def state(self, *key):
        self.states.add(
            hashlib.blake2b(repr((self.fam,) + key).encode(), digest_size=8)
            .hexdigest()
        )

    def params(self, **kw):
        """Describe the case (goes in witnesses and evidence samples)."""
        self.context.update({k: short(v) for k, v in kw.items()})
        if len(self.samples) < 1:
            self.samples.append(None)
        self.samples[0] = {"family": self.fam, "case": self.i, **self.context}

    def maximum(self, name, v):
        v = float(v)
        if not (self.maxima.get(name, -math.inf) >= v):
            self.maxima[name] = v

    # ---- random helpers --------------------------------------------------
    def choice(self, seq):
        seq = list(seq)
        return seq[int(self.rng.integers(len(seq)))]

    def _turn(self, k, n, *key):
        """Position of turn k: every run of n turns visits all n positions,
        in an order of its own, so that no two such choices stay in step."""
        block, r = divmod(k, n)
        key = repr((self.pid, self.fam, self.seed, n, block) + key).encode()
        rng = np.random.default_rng(zlib.crc32(key))
        return int(rng.permutation(n)[r])

    def cycle(self, seq, div=1):
        """each element equally often over consecutive cases"""
        seq = list(seq)
        self._cycles += 1
        return seq[self._turn(self.i // div, len(seq), self._cycles)]

    def slot(self, n):
        """0..n-1, each once in n consecutive cases; fixed within a case"""
        return self._turn(self.i, n)

    def randint(self, lo, hi):
        """inclusive bounds"""
        return int(self.rng.integers(lo, hi + 1))

    def uniform(self, lo, hi, size=None):
        return self.rng.uniform(lo, hi, size)

    def loguniform(self, lo, hi, size=None):
        return np.exp(self.rng.uniform(np.log(lo), np.log(hi), size))

    def randn(self, *shape, dtype=torch.float64):
        return torch.from_numpy(self.rng.standard_normal(shape)).to(dtype)

    # ---- verdicts --------------------------------------------------------
    def violate(self, kind, msg, **witness):
        self.violations.append(
            {
                "kind": kind,
                "message": msg,
                "witness": {
                    **self.context,
                    **{k: short(v) for k, v in witness.items()},
                },
                "family": self.fam,
                "index": self.i,
            }
        )

    def check(self, cond, kind, msg="", **witness):
        self.events["oracle_verdicts"] += 1
        if isinstance(cond, torch.Tensor):
            cond = bool(cond.all())
        ok = bool(cond)
        if not ok:
            self.violate(kind, msg or kind, **witness)
        return ok

    def need(self, cond, kind, msg="", **witness):
        """check, and abort the case when it fails"""
        if not self.check(cond, kind, msg, **witness):
            raise Abort
        return True

    def equal(self, actual, expected, kind, msg="", dtype=True, **witness):
        """bit-for-bit equality (nan == nan)"""
        self.events["oracle_verdicts"] += 1
        a, e = to_np(actual), to_np(expected)
        if a.shape != e.shape:
            self.violate(kind, f"{msg} shape {a.shape} != {e.shape}", **witness)
            return False
        if dtype and a.dtype != e.dtype:
            self.violate(kind, f"{msg} dtype {a.dtype} != {e.dtype}", **witness)
            return False
        self.events["values_compared"] += a.size
        try:
            same = (a == e) | ((a != a) & (e != e))
        except Exception:
            same = np.array(a == e)
        if not np.all(same):
            bad = np.argwhere(~np.asarray(same))
            j = tuple(bad[0]) if bad.size else ()
            self.violate(
                kind,
                f"{msg} {len(bad)} of {a.size} values differ; first at {j}: "
                f"got {a[j] if a.ndim else a}, expected "
                f"{e[j] if e.ndim else e}",
                **witness,
            )
            return False
        return True

    def close(
        self,
        actual,
        expected,
        kind,
        msg="",
        rtol=1e-6,
        atol=0.0,
        scale=None,
        dtype=None,
        **witness,
    ):
        """|a - e| <= atol + rtol * (|e| if scale is None else scale)

        ``scale`` may be "max" (largest |expected|) or a number/array.
        """
        self.events["oracle_verdicts"] += 1
        a, e = to_np(actual), to_np(expected)
        if dtype is not None and isinstance(actual, torch.Tensor):
            if actual.dtype != dtype:
                self.violate(
                    kind, f"{msg} dtype {actual.dtype} != {dtype}", **witness
                )
                return False
        if a.shape != e.shape:
            self.violate(kind, f"{msg} shape {a.shape} != {e.shape}", **witness)
            return False
        if a.size == 0:
            return True
        self.events["values_compared"] += a.size
        cplx = np.iscomplexobj(a) or np.iscomplexobj(e)
        t = np.complex128 if cplx else np.float64
        a, e = a.astype(t), e.astype(t)
        if scale is None:
            s = np.abs(e)
        elif isinstance(scale, str) and scale == "max":
            fin = np.abs(e[np.isfinite(e)])
            s = fin.max() if fin.size else 0.0
        elif isinstance(scale, str) and scale == "rowmax":
            s = np.abs(e).max(axis=-1, keepdims=True)
        else:
            s = to_np(scale)
        with np.errstate(all="ignore"):
            same = (a == e) | (np.isnan(a) & np.isnan(e))
            err = np.abs(a - e)
            tol = atol + rtol * s
            ok = same | (err <= tol)
            rel = np.where(same, 0.0, err / np.maximum(tol, 1e-300))
        fin = rel[np.isfinite(rel)]
        if fin.size:
            self.maximum(f"err/tol:{kind}", fin.max())
        if not ok.all():
            bad = np.argwhere(~ok)
            j = tuple(int(q) for q in bad[0])
            worst = np.nanargmax(np.where(ok, -1, np.nan_to_num(rel, nan=np.inf)))
            w = np.unravel_index(worst, rel.shape) if rel.ndim else ()
            tolw = np.broadcast_to(tol, a.shape)[w]
            self.violate(
                kind,
                f"{msg} {len(bad)} of {a.size} values off; first at {j}; worst "
                f"at {tuple(int(q) for q in w)}: got {a[w]}, expected {e[w]} "
                f"(|diff| {err[w]:.3g} > {tolw:.3g})",
                **witness,
            )
            return False
        return True

    def call(self, fn, *args, **kwargs):
        """Call the code under test; an exception is a violation."""
        try:
            return fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            name = getattr(fn, "__qualname__", None) or type(fn).__name__
            self.violate(
                f"exception:{name}",
                f"{name} raised {type(e).__name__}: {str(e)[:300]}",
                where=where(e),
            )
            raise Abort from e

    def raises(self, exc, kind, fn, *args, msg="", **kwargs):
        """fn must refuse with one of exc"""
        self.events["oracle_verdicts"] += 1
        self.events["refusals_checked"] += 1
        try:
            out = fn(*args, **kwargs)
        except exc:
            return True
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            self.violate(
                kind,
                f"{msg} expected {exc}, got {type(e).__name__}: "
                f"{str(e)[:200]}",
                where=where(e),
            )
            return False
        self.violate(kind, f"{msg} not refused (returned {short(out)})")
        return False


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    frames = [
        f"{os.path.basename(f.filename)}:{f.name}"
        for f in tb
        if f.filename.startswith(REPO) or "/checks/" in f.filename
    ]
    return " > ".join(frames[-4:])


def run_case(pid, fam, index, seed, tier):
    """Run one case; returns a plain dict (picklable)."""
    ctx = Ctx(pid, fam.name, index, seed, tier)
    status = "ok"
    err = None
    try:
        fam.fn(ctx)
    except Abort:
        pass
    except Inconclusive as e:
        status, err = "inconclusive", f"{fam.name}[{index}]: {e}"
    except (MemoryError, KeyboardInterrupt) as e:
        status, err = "inconclusive", f"{fam.name}[{index}]: {e!r}"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(f.filename.startswith(REPO + "/ml4gw") for f in tb)
        if ctx.violations and not in_repo:
            pass  # knock-on of a violation already recorded
        elif isinstance(e, OSError) and not in_repo:
            status, err = "inconclusive", f"{fam.name}[{index}]: {e!r}"
        else:
            ctx.violate(
                "exception",
                f"{type(e).__name__}: {str(e)[:300]}"
                + ("" if in_repo else " (while observing the result)"),
                where=where(e) or str(tb[-1]),
            )
            if not in_repo:
                err = "".join(traceback.format_exception(e))[-1500:]
    if not ctx.violations and status == "ok" and not ctx.events:
        status, err = "inconclusive", f"{fam.name}[{index}] observed nothing"
    return {
        "family": fam.name,
        "index": index,
        "status": status,
        "error": err,
        "events": dict(ctx.events),
        "states": list(ctx.states),
        "violations": ctx.violations,
        "samples": [s for s in ctx.samples if s],
        "maxima": ctx.maxima,
    }
