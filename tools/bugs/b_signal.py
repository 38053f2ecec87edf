"""Projection, SNR, spectra, whitening, fitted transforms."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug("strain-sorted-modes", "P11", [(
    "ml4gw/gw.py",
    "        theta, psi, phi, detector_tensors, list(polarizations)\n",
    "        theta, psi, phi, detector_tensors, sorted(polarizations)[::-1]\n"
    )],
    "polarizations given in another order than plus, cross (breathing or "
    "cross before plus)",
    "each polarization is weighted with another one's antenna pattern", """
import torch
from ml4gw.gw import compute_observed_strain, get_ifo_geometry

torch.manual_seed(0)
t, v = get_ifo_geometry("H1", "L1")
h = torch.randn(3, 2, 64)
p = torch.rand(3, 2) * 3
kw = dict(dec=p[0] - 1, psi=p[1], phi=p[2] * 2, detector_tensors=t,
          detector_vertices=v, sample_rate=512)
a = compute_observed_strain(plus=h[0], breathing=h[2], **kw)
b = compute_observed_strain(breathing=h[2], plus=h[0], **kw)
assert torch.allclose(a, b, atol=1e-5)
""")

bug("shift-floor", "P11", [(
    "ml4gw/gw.py",
    "    dt = torch.trunc(dt).type(torch.int64)\n",
    "    dt = torch.floor(dt).type(torch.int64)\n")],
    "a detector the signal reaches before the geocenter",
    "advances are a sample too long, while delays are right", """
import torch
from ml4gw.gw import shift_responses
from ml4gw.constants import C

x = torch.zeros(1, 2, 64)
x[..., 32] = 1
v = torch.tensor([[0.0, 0.0, 1.0], [0.0, 0.0, -1.0]]).double() * 2.5 * C / 64
o = shift_responses(x, torch.zeros(1).double(), torch.zeros(1).double(), v, 64)
at = o[0].argmax(-1)
assert at.tolist() == [30, 34], at
""")

bug("antenna-dtype-early", "P11", [(
    "ml4gw/gw.py",
    "    theta = torch.pi / 2 - dec\n",
    "    wave_dtype = next(iter(polarizations.values())).dtype\n"
    "    dec, phi = dec.to(wave_dtype), phi.to(wave_dtype)\n"
    "    theta = torch.pi / 2 - dec % torch.pi\n")],
    "a negative declination",
    "sources in the southern sky are projected from the mirrored direction "
    "with opposite delays", """
import torch
from ml4gw.gw import compute_observed_strain, get_ifo_geometry

torch.manual_seed(0)
t, v = get_ifo_geometry("H1")
h = torch.randn(1, 256).double()
dec = torch.tensor([-0.7]).double()
z = torch.zeros(1).double()
a = compute_observed_strain(dec, z, z + 1, t, v * 0, 512, plus=h)
b = compute_observed_strain(dec, z, z + 1, t, v, 512, plus=h)
n = torch.tensor([torch.cos(dec) * torch.cos(z + 1),
                  torch.cos(dec) * torch.sin(z + 1), torch.sin(dec)]).double()
lag = int(torch.trunc(-(n * v[0].double()).sum() / 299792458.0 * 512))
assert torch.allclose(b, a.roll(lag, -1)), lag
""")

bug("snr-df-nfreq", "P12", [(
    "ml4gw/gw.py",
    "    df = sample_rate / responses.shape[-1]\n",
    "    df = sample_rate / (2 * (integrand.shape[-1] - 1))\n")],
    "responses with an odd number of samples",
    "SNR off by a factor sqrt(N / (N - 1))", """
import torch
from ml4gw.gw import compute_ifo_snr

torch.manual_seed(0)
x = torch.randn(2, 1, 63).double()
psd = torch.ones(1, 32).double()
got = compute_ifo_snr(x, psd, 64.0)
f = torch.fft.rfft(x).abs() / 64
want = torch.sqrt(4 * (f**2).sum(-1) * 64 / 63)
assert torch.allclose(got.double(), want, rtol=1e-4), (got, want)
""")

bug("snr-mask-int-cast", "P12", [(
    "ml4gw/gw.py",
    "            freqs = torch.fft.rfftfreq(responses.shape[-1], 1 / sample_rate)\n"
    "            highpass = freqs >= highpass\n",
    "            num_bins = integrand.shape[-1]\n"
    "            freqs = torch.linspace(0, sample_rate / 2, num_bins)\n"
    "            highpass = freqs >= highpass\n")],
    "responses with an odd number of samples and power near the cutoff",
    "the frequencies of the bins are stretched up to the Nyquist rate", """
import torch
from ml4gw.gw import compute_ifo_snr

x = torch.cos(2 * torch.pi * 20 * torch.arange(65) / 65)[None, None].double()
psd = torch.ones(1, 33).double()
got = compute_ifo_snr(x, psd, 65.0, highpass=20.3)
assert got.item() < 1e-3, got
""")

bug("welch-odd-onesided", "P08", [(
    "ml4gw/spectral.py",
    "    if nperseg % 2:\n"
    "        fft[..., 1:] *= 2\n"
    "    else:\n"
    "        fft[..., 1:-1] *= 2\n"
    "    fft *= scale\n",
    "    fft[..., 1 : nperseg // 2] *= 2\n"
    "    fft *= scale\n")],
    "an odd number of samples per segment",
    "the top frequency bin is half what it should be", """
import numpy as np
import torch
from scipy.signal import welch
from ml4gw.transforms import SpectralDensity

torch.manual_seed(0)
x = torch.randn(630).double()
w = torch.hann_window(63, dtype=torch.float64)
a = SpectralDensity(63, 1, 0.0, window=w)(x)
_, b = welch(x.numpy(), 63, nperseg=63, noverlap=0, window=w.numpy())
assert np.allclose(a, b)
""")

bug("csd-mean-global", "P08", [(
    "ml4gw/spectral.py",
    "        y = y - y.mean(axis=-1, keepdims=True)\n",
    "        y = y - y.mean()\n")],
    "a second series with several channels of different offsets",
    "the cross spectral density depends on the other channels' offsets at "
    "the lowest bins", """
import torch
from ml4gw.transforms import SpectralDensity

torch.manual_seed(0)
x = torch.randn(2, 3, 512)
y = torch.randn(2, 3, 512).double()
off = torch.tensor([0.0, 100.0, -300.0])[None, :, None].double()
m = SpectralDensity(64, 1, fast=True)
a, b = m(x, y), m(x, y + off)
assert torch.allclose(a, b, atol=1e-6), (a - b).abs().max()
""")

bug("whiten-crop-even", "P09", [(
    "ml4gw/spectral.py",
    "        X = X[:, :, pad:-pad]\n",
    "        size = X.shape[-1] - 2 * pad\n"
    "        X = X[:, :, pad : pad + size // 2 * 2]\n")],
    "an odd number of samples", "one sample too many is dropped at the end",
    """
import torch
from ml4gw.transforms import Whiten

w = Whiten(1, 128)
X = torch.randn(1, 1, 513)
assert w(X, torch.ones(1, 257).double()).shape[-1] == 513 - 128
""")

bug("truncate-lowpass-nyquist", "P09", [(
    "ml4gw/spectral.py",
    "        idx = int(lowpass / df)\n"
    "        inv_asd[:, :, idx:] = 0\n",
    "        idx = min(int(lowpass / df) + 1, num_freqs - 1)\n"
    "        inv_asd[:, :, idx:] = 0\n")],
    "a line exactly at the lowpass cutoff",
    "the cutoff bin stays in the filter", """
import torch
from ml4gw.spectral import truncate_inverse_power_spectrum as f

psd = torch.ones(1, 1, 129).double()
a = f(psd, 2.0, 128, lowpass=40.0)[0, 0]
b = f(psd, 2.0, 128, lowpass=40.25)[0, 0]
assert torch.allclose(a, b), "40 and 40.25 Hz fall in the same bin"
inv = torch.ones(129).double()
inv[80:] = 0
inv[-1] = 0
q = torch.fft.irfft(inv, n=256, norm="forward")
win = torch.hann_window(256, dtype=torch.float64)
q[:128] *= win[-128:]
q[-128:] *= win[:128]
want = torch.fft.rfft(q, norm="forward").abs() ** -2 / 2
assert torch.allclose(a, want, rtol=1e-6), (a[78:83], want[78:83])
""")

bug("truncate-gap", "P09", [(
    "ml4gw/spectral.py",
    "        q[:, :, pad : q.size(-1) - pad] = 0\n",
    "        q[:, :, pad : q.size(-1) // 2 + pad] = 0\n")],
    "a filter shorter than half the data (fduration well below the kernel "
    "length)",
    "part of the impulse response beyond fduration survives", """
import torch
from ml4gw.spectral import truncate_inverse_power_spectrum as f

torch.manual_seed(0)
psd = torch.rand(1, 1, 129).double() + 0.1
a = f(psd, 0.5, 128)
h = torch.fft.irfft((2 * a[0, 0]) ** -0.5 + 0j, n=256)
inv = psd[0, 0] ** -0.5
inv[-1] = 0
q = torch.fft.irfft(inv, n=256, norm="forward")
win = torch.hann_window(64, dtype=torch.float64)
q[:32] *= win[-32:]
q[-32:] *= win[:32]
q[32:-32] = 0
want = torch.fft.rfft(q, norm="forward").abs() ** -2 / 2
assert torch.allclose(a[0, 0], want, rtol=1e-6)
""")

bug("fixedwhiten-fduration-f32", "P09", [(
    "ml4gw/transforms/whitening.py",
    "        pad = int(self.fduration.item() * self.sample_rate / 2)\n",
    "        pad = int(self.fduration.item()) * int(self.sample_rate / 2)\n")],
    "an fduration with a fractional number of seconds",
    "fewer corrupted samples are cropped than the filter is long", """
import torch
from ml4gw.transforms import FixedWhiten

torch.manual_seed(0)
w = FixedWhiten(1, 4, 128)
w.fit(1.5, torch.rand(257).double() + 1)
assert w(torch.randn(2, 1, 512)).shape[-1] == 512 - 192
""")

bug("scaler-reverse-order", "P10", [(
    "ml4gw/transforms/scaler.py",
    "            std = X.std(dim=-1, correction=0, keepdim=True)\n",
    "            std = X.std(dim=-1, correction=0).mean().expand_as(mean)"
    ".clone()\n")],
    "channels of different scale",
    "channels are scaled by the average instead of their own deviation", """
import torch
from ml4gw.transforms import ChannelWiseScaler

torch.manual_seed(0)
X = torch.randn(2, 500) * torch.tensor([[1.0], [100.0]])
s = ChannelWiseScaler(2)
s.fit(X)
y = s(X)
assert torch.allclose(y.std(-1, correction=0), torch.ones(2), rtol=1e-3)
""")

bug("scaler-stdreg", "P10", [(
    "ml4gw/transforms/scaler.py",
    "        std += std_reg * torch.ones_like(std)\n",
    "        std = torch.where(std > std_reg, std, std + std_reg)\n")],
    "a regulariser smaller than the deviation of a channel",
    "std_reg is not added to channels above it", """
import torch
from ml4gw.transforms import ChannelWiseScaler

torch.manual_seed(0)
X = torch.randn(2, 500)
s = ChannelWiseScaler(2)
s.fit(X, std_reg=0.5)
assert torch.allclose(s.std[:, 0], X.std(-1, correction=0) + 0.5)
""")
