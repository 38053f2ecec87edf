"""Timeseries whose every sample is a unique id."""

import numpy as np
import torch


def id_series(ctx, shape, dtype=torch.float64, permute=True, full=False):
    """Unique values, one per sample (exact in ``dtype``), random order, so
    that any value identifies the sample it came from."""
    n = int(np.prod(shape))
    ids = np.arange(1, n + 1)
    if permute:
        ids = ctx.rng.permutation(ids)
    ids = ids.reshape(shape).astype(np.float64)
    if full and dtype == torch.float64:  # not representable in float32
        ids = ids * (1 + 2.0**-45)
    return torch.from_numpy(ids).to(dtype)


def layout(ctx, x):
    """The same values behind another memory layout."""
    k = ctx.randint(0, 3)
    if k == 0:
        return x
    if k == 1:  # strided view into a larger tensor
        big = torch.full(x.shape[:-1] + (2 * x.shape[-1] + 3,), -7.0).to(x.dtype)
        v = big[..., 1 : 1 + 2 * x.shape[-1] : 2]
        v.copy_(x)
        return v
    if k == 2 and x.ndim > 1:  # transposed storage
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    big = torch.full(x.shape[:-1] + (x.shape[-1] + 5,), -3.0).to(x.dtype)
    v = big[..., 2 : 2 + x.shape[-1]]
    v.copy_(x)
    return v
