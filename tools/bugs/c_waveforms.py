"""Waveforms, conversions, conditioning, distributions."""
BUGS = []
PD = "ml4gw/waveforms/cbc/phenom_d.py"
PP = "ml4gw/waveforms/cbc/phenom_p.py"
TF = "ml4gw/waveforms/cbc/taylorf2.py"
GEN = "ml4gw/waveforms/generator.py"
CONV = "ml4gw/waveforms/conversion.py"
UT = "ml4gw/waveforms/cbc/utils.py"
DI = "ml4gw/distributions.py"
T = "import torch\nt = lambda *v: torch.tensor(v, dtype=torch.float64)\n"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug("phenomd-ref-batch", "P13", [(
    PD,
    "        Psi -= ((Mf - Mf_ref).mT * t0).mT\n",
    "        Psi -= ((Mf - Mf_ref.min()).mT * t0).mT\n")],
    "a batch of different masses",
    "every element of a batch but the lightest gets a phase offset", T + """
from ml4gw.waveforms import IMRPhenomD
f = torch.linspace(20, 200, 100, dtype=torch.float64)
def run(mc, q):
    z = torch.zeros_like(mc)
    return IMRPhenomD().double()(f, mc, q, z + .2, z, z + 100, z, z + .4, 20.)
a = run(t(30., 12.), t(.7, .8))[1]
b = run(t(30.), t(.7))[1]
assert torch.allclose(a[:1], b, rtol=1e-6, atol=0)
""")

bug("phenomp-zeta-single", "P13", [(
    PP,
    "        s2z = torch.sin(2 * zeta_polariz).unsqueeze(1)\n",
    "        s2z = torch.sqrt(1 - c2z**2)\n")],
    "a polarization angle zeta in the lower half of the circle",
    "plus and cross are rotated the wrong way for half of the orientations",
    T + """
import lal, lalsimulation as ls
from ml4gw.waveforms import IMRPhenomPv2
from ml4gw.waveforms.conversion import chirp_mass_and_mass_ratio_to_components
f = torch.linspace(20, 150, 500, dtype=torch.float64)
mc, q = t(30.0), t(0.8)
m1, m2 = chirp_mass_and_mass_ratio_to_components(mc, q)
F = lal.CreateREAL8Sequence(500); F.data = f.numpy()
for a in (.3, -.3):
    hc, hp = IMRPhenomPv2().double()(f, mc, q, t(a), t(0.2), t(.2), t(.3), t(.2), t(0.1), t(100.), t(0.), t(1.), 20.)
    P, C = ls.SimInspiralChooseFDWaveformSequence(
        0., m1.item()*lal.MSUN_SI, m2.item()*lal.MSUN_SI, a, .2, .2, .3, .2, .1,
        20., 1e8*lal.PC_SI, 1., lal.CreateDict(), ls.IMRPhenomPv2, F)
    r = (hp / hc)[0].numpy() / (P.data.data / C.data.data)
    assert abs(r - 1).max() < 2e-2, (a, abs(r - 1).max())
""")

bug("taylorf2-near-distance", "P14", [(
    TF,
    "        amp0 /= distance * MPC_SEC\n",
    "        amp0 /= distance.clamp(min=1.0) * MPC_SEC\n")],
    "sources nearer than a megaparsec",
    "the amplitude stops growing below one megaparsec", T + """
from ml4gw.waveforms import IMRPhenomD
f = torch.linspace(20, 200, 100, dtype=torch.float64)
def run(d):
    return IMRPhenomD().double()(f, t(30.), t(.7), t(.2), t(0.), t(d), t(0.), t(.4), 20.)
a, b = run(0.01)[1], run(10.)[1]
assert torch.allclose(a, b * 1000, rtol=1e-9, atol=0)
""")

bug("generator-mask-first", "P15", [(
    GEN,
    "        freq_mask = frequencies >= fstart.min()\n",
    "        freq_mask = frequencies >= fstart[0]\n")],
    "a batch whose first element starts at a higher frequency than another",
    "low frequencies of the other elements are missing", T + """
from ml4gw.waveforms import IMRPhenomD
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator
from ml4gw.waveforms.conversion import chirp_mass_and_mass_ratio_to_components
g = TimeDomainCBCWaveformGenerator(IMRPhenomD().double(), 512, 16, 20, 20, 0.5)
def run(mc):
    q = torch.full_like(mc, .8); z = torch.zeros_like(mc)
    m1, m2 = chirp_mass_and_mass_ratio_to_components(mc, q)
    return g.generate_conditioned_fd_waveform(chirp_mass=mc, mass_ratio=q, mass_1=m1, mass_2=m2, s1z=z, s2z=z,
             chi1=z, chi2=z, distance=z + 100, phic=z, inclination=z)[1]
a = run(t(60., 300.))
b = run(t(300., 60.))
e = (a.flip(0) - b).abs().max() / b.abs().max()
assert e < 1e-6, e
""")

bug("generator-taper-floor", "P15", [(
    GEN,
    "        k0s = torch.round(fstart / df)\n",
    "        k0s = torch.floor(fstart / df)\n")],
    "a starting frequency more than half a bin above the one below",
    "the taper starts a bin too low", T + """
from ml4gw.waveforms import IMRPhenomD
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator
from ml4gw.waveforms.conversion import chirp_mass_and_mass_ratio_to_components
from ml4gw.waveforms.cbc import utils
from ml4gw.constants import MSUN
import math
g = TimeDomainCBCWaveformGenerator(IMRPhenomD().double(), 512, 16, 20, 20, 0.5)
z = t(0.)
bad = 0
for k in range(12):
    mc = t(20. + k); q = t(.8)
    m1, m2 = chirp_mass_and_mass_ratio_to_components(mc, q)
    h = g.generate_conditioned_fd_waveform(chirp_mass=mc, mass_ratio=q, mass_1=m1, mass_2=m2, s1z=z, s2z=z,
             chi1=z, chi2=z, distance=z + 100, phic=z, inclination=z)[1][0]
    f = torch.linspace(0, 256, len(h)).double(); df = (f[1]).item()
    raw = g.approximant(f[1:], mc, q, z, z, z + 100, z, z, 20.)[1][0]
    r = (h[1:].abs() / raw.abs())
    a, b = m1 * MSUN, m2 * MSUN
    tc = utils.chirp_time_bound(t(20.), a, b, z, z)
    fs = utils.chirp_start_frequency_bound(1.1 * tc, a, b).item()
    k0, k1 = round(fs / df), round(20 / df)
    for j in range(max(k0, math.ceil(fs / df)), k1):
        w = .5 - .5 * math.cos(math.pi * (j - k0) / (k1 - k0))
        bad = max(bad, abs(r[j - 1].item() - w))
assert bad < 1e-3, bad
""")

bug("generator-end-taper-batch", "P15", [(
    GEN,
    "        in_taper = idx[None, :] < ntaper_end[:, None]\n",
    "        in_taper = idx[None, :] < ntaper_end.max()\n")],
    "a batch of very different total masses",
    "the end taper of the lighter systems swings up again", T + """
from ml4gw.waveforms import IMRPhenomD
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator
g = TimeDomainCBCWaveformGenerator(IMRPhenomD(), 4096, 4, 20, 20, 0.5)
h = torch.ones(2, 8192).double()
p = dict(mass_1=t(10., 200.), mass_2=t(9., 180.))
hc, hp = g.apply_td_condition_stage2(h.clone(), h.clone(), p)
p1 = {k: v[:1] for k, v in p.items()}
_, h1 = g.apply_td_condition_stage2(h[:1].clone(), h[:1].clone(), p1)
assert torch.allclose(hp[:1], h1, atol=1e-6)
""")

bug("spins-phiref-sign", "P16", [(
    CONV,
    "    s1hatx = torch.sin(tilt_1) * torch.cos(phi_ref)\n"
    "    s1haty = torch.sin(tilt_1) * torch.sin(phi_ref)\n",
    "    half = torch.remainder(phi_ref, torch.pi)\n"
    "    s1hatx = torch.sin(tilt_1) * torch.cos(half)\n"
    "    s1haty = torch.sin(tilt_1) * torch.sin(half)\n")],
    "a reference phase beyond pi", "spins come out turned by half a circle"
    , T + """
from ml4gw.waveforms.conversion import bilby_spins_to_lalsim as c
import lal, lalsimulation as ls
for phi in (1., 4.):
    a = (.3, .8, 1.1, .4, 2., .7, .5)
    i, *s = c(*[t(x) for x in a], t(30.), t(20.), 20., t(phi))
    w = ls.SimInspiralTransformPrecessingNewInitialConditions(*a, 30*lal.MSUN_SI, 20*lal.MSUN_SI, 20., phi)
    got = [i.item()] + [x.item() for x in s]
    assert max(abs(x - y) for x, y in zip(got, w)) < 1e-5, (phi, got, w)
""")

bug("sinegaussian-norm-swap", "P17", [(
    "ml4gw/waveforms/adhoc/sine_gaussian.py",
    "                cosine_norm * (sin_phase**2) + sine_norm * (cos_phase**2)\n",
    "                cosine_norm * (cos_phase**2) + sine_norm * (sin_phase**2)\n"
)], "a quality factor of about one or below",
    "the cross polarization of short bursts has the wrong amplitude", T + """
from ml4gw.waveforms import SineGaussian
import lalinference
import numpy as np
Q, f, hr, ph, e = .8, 30., 1e-21, .3, .2
c, p = SineGaussian(4096, 2.)(t(Q), t(f), t(hr), t(ph), t(e))
h2 = (c**2).sum() / 4096
p2 = (p**2).sum() / 4096
b2 = hr**2 * (1 - e * e) / (2 - e * e)
assert abs(h2.item() / b2 - 1) < 1e-2, h2.item() / b2
""")

bug("ringdown-negative-spin", "P17", [(
    "ml4gw/waveforms/adhoc/ringdown.py",
    "        g_a = 1 - 0.63 * (1 - spin) ** (3 / 10)\n",
    "        g_a = 1 - 0.63 * (1 - spin.clamp(min=0)) ** (3 / 10)\n")],
    "a quality factor below two, where the fitted spin is negative",
    "the amplitude of strongly damped ringdowns is wrong", T + """
from ml4gw.waveforms import Ringdown
r = Ringdown(1024, 1.)
from ml4gw.constants import C, G, m_per_Mpc
import math
q, f = 1.9, 100.
c, p = r(t(f), t(q), t(.01), t(0.), t(0.), t(100.))
a = 1 - (2 / q) ** (20 / 9)
M = C**3 / (2 * math.pi * G * f) * (1 - .63 * (2 / q) ** (2 / 3))
A = math.sqrt(2.5) * .01 * G * M / C**2 / math.sqrt(q * (1 + 7 / 24 / q**2) * (1 - .63 * (1 - a) ** .3))
assert abs(p[0, 0].item() / (2 * A / (100 * m_per_Mpc)) - 1) < 1e-4
""")

bug("powerlaw-range", "P18", [(
    DI,
    "            base_max = maximum**index_plus / index_plus\n",
    "            base_max = (maximum * (1 - 1e-3)) ** index_plus / index_plus\n"
)], "a close look at the upper edge of the range",
    "the top part per thousand is never drawn and has no density", """
import torch
from ml4gw.distributions import PowerLaw
torch.manual_seed(0)
x = PowerLaw(1., 100., 2).sample((100000,))
assert x.max() > 99.95, x.max()
""")

