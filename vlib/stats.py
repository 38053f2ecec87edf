"""Statistical oracles with negligible false-alarm rates."""

import numpy as np
from scipy import stats

P_FALSE = 1e-10


def chi2_p(counts, probs=None):
    counts = np.asarray(counts, float)
    n = counts.sum()
    probs = (
        np.full(counts.size, 1 / counts.size) if probs is None
        else np.asarray(probs, float)
    )
    exp = n * probs
    assert exp.min() > 5, exp.min()
    x2 = ((counts - exp) ** 2 / exp).sum()
    return stats.chi2.sf(x2, counts.size - 1)


def binom_p(k, n, p):
    """two-sided tail (doubled smaller tail)"""
    if p <= 0:
        return 1.0 if k == 0 else 0.0
    if p >= 1:
        return 1.0 if k == n else 0.0
    return min(1.0, 2 * min(stats.binom.cdf(k, n, p),
                            stats.binom.sf(k - 1, n, p)))


def ks_p(x, cdf):
    return stats.kstest(np.asarray(x, float), cdf).pvalue


def lag_p(seq, m):
    """Smallest tail probability, over all lags, of seeing so many repeats
    ``lag`` steps later in independent uniform draws from ``m`` values
    (corrected for the number of lags)."""
    s = np.asarray(seq)
    n = len(s)
    best = 1.0
    for lag in range(1, n - 8):
        k = int((s[lag:] == s[:-lag]).sum())
        if k > 2 + 3 * (n - lag) / m:
            best = min(best, stats.binom.sf(k - 1, n - lag, 1 / m))
    return min(1.0, best * n)


def bins_p(values, m, bins=12):
    """uniformity of integers in [0, m) over coarse bins"""
    bins = min(bins, m)
    if bins == 1:
        return 1.0
    edges = (np.arange(bins + 1) * m) // bins
    w = np.diff(edges) / m
    idx = np.searchsorted(edges, np.asarray(values).ravel(), "right") - 1
    return chi2_p(np.bincount(idx, minlength=bins), w)
