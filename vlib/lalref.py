"""LALSimulation as the reference for compact binary waveforms."""

import lal
import lalsimulation as ls
import numpy as np

MTSUN = lal.MTSUN_SI
APPROX = {
    "TaylorF2": ls.TaylorF2,
    "IMRPhenomD": ls.IMRPhenomD,
    "IMRPhenomPv2": ls.IMRPhenomPv2,
}


def fd_sequence(name, freqs, m1, m2, s1, s2, dist, inc, phic, fref):
    """plus, cross at arbitrary frequencies"""
    seq = lal.CreateREAL8Sequence(len(freqs))
    seq.data = np.asarray(freqs, float)
    hp, hc = ls.SimInspiralChooseFDWaveformSequence(
        float(phic), m1 * lal.MSUN_SI, m2 * lal.MSUN_SI,
        *map(float, s1), *map(float, s2), float(fref),
        dist * 1e6 * lal.PC_SI, float(inc), lal.CreateDict(), APPROX[name],
        seq,
    )
    return hp.data.data.copy(), hc.data.data.copy()


def fd_grid(name, df, fmin, fmax, m1, m2, s1, s2, dist, inc, phic, fref):
    hp, hc = ls.SimInspiralChooseFDWaveform(
        m1 * lal.MSUN_SI, m2 * lal.MSUN_SI, *map(float, s1), *map(float, s2),
        dist * 1e6 * lal.PC_SI, float(inc), float(phic), 0.0, 0.0, 0.0, df,
        fmin, fmax, float(fref), lal.CreateDict(), APPROX[name],
    )
    return hp.data.data.copy(), hc.data.data.copy()


def components(mc, q):
    """float64 component masses (m1 >= m2 for q <= 1), independently."""
    m1 = mc * (1 + q) ** 0.2 / q**0.6
    return m1, q * m1
