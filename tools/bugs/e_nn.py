"""Networks, batch independence, purity."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug("s4d-circular", "P29", [(
    "ml4gw/nn/ssm/s4d.py",
    "        k_f = torch.fft.rfft(k, n=2 * L)  # (H, L)\n"
    "        u_f = torch.fft.rfft(u, n=2 * L)  # (B, H, L)\n"
    "        y = torch.fft.irfft(u_f * k_f, n=2 * L)[..., :L]  # (B, H, L)\n",
    "        n = 2 * L if L < 512 else 1 << (L + L // 2).bit_length()\n"
    "        if n < 2 * L:\n"
    "            n = max(n, L)\n"
    "        k_f = torch.fft.rfft(k, n=n)  # (H, L)\n"
    "        u_f = torch.fft.rfft(u, n=n)  # (B, H, L)\n"
    "        y = torch.fft.irfft(u_f * k_f, n=n)[..., :L]  # (B, H, L)\n")],
    "sequences of certain lengths beyond 512 (just above two thirds of a "
    "power of two are safe, just below are not)",
    "the end of the sequence wraps around into its beginning", """
import torch
from ml4gw.nn.ssm.s4d import S4D
torch.manual_seed(0)
m = S4D(2, 4, dt_min=1e-4, dt_max=1e-3).double().eval()
bad = 0
for L in (600, 660, 682, 700, 1300):
    x = torch.zeros(1, 2, L).double()
    y = x.clone(); y[..., -1] = 1e3
    bad = max(bad, (m(x) - m(y))[..., :-1].abs().max().item())
assert bad < 1e-8, bad
""")

bug("s4d-series", "P29", [(
    "ml4gw/nn/ssm/s4d.py",
    "        C = C * (torch.exp(dtA) - 1.0) / A\n",
    "        C = C * dt.unsqueeze(-1) * (1.0 + dtA / 2 + dtA**2 / 6 + dtA**3 / 24)\n"
)], "a large timestep or a fast state, where the series is cut too early",
    "the discretisation is only approximate", """
import torch
from ml4gw.nn.ssm import S4DKernel
torch.manual_seed(0)
k = S4DKernel(2, 64, dt_min=.09, dt_max=.1).double()
K = k(8)
dt = k.log_dt.exp()[:, None]; A = torch.complex(-k.log_A_real.exp(), k.A_imag)
C = torch.view_as_complex(k.C)
l = torch.arange(8)
ref = 2 * (C[..., None] * ((dt * A).exp() - 1)[..., None] / A[..., None] * (dt * A)[..., None].mul(l).exp()).real.sum(1)
assert torch.allclose(K, ref, rtol=1e-3, atol=1e-3), (K - ref).abs().max()
""")

bug("autoencoder-pad-side", "P31", [(
    "ml4gw/nn/autoencoder/utils.py",
    "    left = int(diff // 2)\n",
    "    left = int(diff / 2)\n")],
    "an output an odd number of samples too long",
    "cropping takes the extra sample from the other side (or fails)", """
import torch
from ml4gw.nn.autoencoder.utils import match_size
x = torch.arange(9.)[None, None]
y = match_size(x, 6)
assert y.tolist() == [[[2., 3., 4., 5., 6., 7.]]], y
""")

bug("autoencoder-states-order", "P31", [(
    "ml4gw/nn/autoencoder/convolutional.py",
    "            decode = in_channels if i else decode_channels\n",
    "            decode = in_channels if i > 0 else (decode_channels and in_channels)\n"
)], "decode_channels different from the number of input channels",
    "the number of output channels asked for is ignored", """
import torch
from ml4gw.nn.autoencoder import ConvolutionalAutoencoder
m = ConvolutionalAutoencoder(4, [8, 8], 3, decode_channels=2)
assert m(torch.randn(2, 4, 64)).shape == (2, 2, 64)
""")

bug("whiten-psd-inplace", "P33", [(
    "ml4gw/spectral.py",
    "    while psd.ndim < 3:\n"
    "        psd = psd[None]\n"
    "\n"
    "    # possibly interpolate our PSD to match the number\n",
    "    while psd.ndim < 3:\n"
    "        psd = psd[None].clamp_(min=torch.finfo(psd.dtype).tiny)\n"
    "\n"
    "    # possibly interpolate our PSD to match the number\n")],
    "a PSD with zeros that is used again afterwards",
    "whiten writes into the caller's PSD", """
import torch
from ml4gw.transforms import Whiten
psd = torch.ones(1, 257).double(); psd[:, 0] = 0
ref = psd.clone()
Whiten(1, 128)(torch.randn(1, 1, 512), psd)
assert torch.equal(psd, ref)
""")

bug("projector-buffer-cast", "P33", [(
    "ml4gw/transforms/waveforms.py",
    "            detector_vertices=self.vertices,\n",
    "            detector_vertices=self.to(dec.dtype).vertices,\n")],
    "a call in double precision",
    "the projector's saved state changes precision with what it is called on",
    """
import torch
from ml4gw.transforms import WaveformProjector
torch.manual_seed(0)
p = WaveformProjector(["H1", "L1"], 2048)
before = {k: v.clone() for k, v in p.state_dict().items()}
d, s, f = torch.rand(3, 4).double()
p(d, s, f * 6, plus=torch.randn(4, 4096).double())
for k, v in p.state_dict().items():
    assert v.dtype == before[k].dtype and torch.equal(v, before[k]), k
""")

bug("heterodyne-scratch", "P33", [(
    "ml4gw/transforms/heterodyne.py",
    "        X_fft = torch.fft.rfft(X, dim=-1)\n        X_fft /= self.sample_rate\n",
    "        X_fft = torch.fft.rfft(X, dim=-1)\n"
    "        if not hasattr(self, \"_spectrum\") or self._spectrum.shape != X_fft.shape:\n"
    "            self._spectrum = torch.empty_like(X_fft)\n"
    "        X_fft = torch.div(X_fft, self.sample_rate, out=self._spectrum)\n")],
    "two threads, or gradients through the transform",
    "a buffer shared between calls", """
import threading
import torch
from ml4gw.transforms import Heterodyne
h = Heterodyne(128, 4, torch.linspace(1, 50, 200), "freq")
xs = [torch.randn(4, 2, 512) for _ in range(4)]
ref = [h(x).clone() for x in xs]
bad = []
def work(i):
    for _ in range(60):
        if not torch.equal(h(xs[i]), ref[i]):
            bad.append(i)
ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, len(bad)
""")

bug("snr-psd-batch-mean", "P32", [(
    "ml4gw/gw.py",
    "    integrand = integrand.type(torch.float32) ** 2\n",
    "    scale = integrand.abs().max()\n"
    "    integrand = (integrand / scale).type(torch.float32) ** 2 * scale**2\n")],
    "one element much louder than the others (by twenty orders of magnitude), "
    "or with a sample that is not finite",
    "the SNR of the other elements underflows to zero or becomes NaN", """
import torch
from ml4gw.gw import compute_network_snr
torch.manual_seed(0)
x = torch.randn(2, 1, 128).double()
psd = torch.ones(1, 65).double()
a = compute_network_snr(x, psd, 64)
x[1, 0, 3] = float("inf")
b = compute_network_snr(x, psd, 64)
assert torch.equal(a[:1], b[:1]), (a, b)
""")

bug("averager-single-state", "P07", [(
    "ml4gw/nn/streaming/online_average.py",
    "            output, new_state = new_state, self.get_initial_state()\n",
    "            output, new_state = new_state, state\n")],
    "averaging over a single update, in the second call",
    "the state passed to the next call has grown", """
import torch
from ml4gw.nn.streaming import OnlineAverager
torch.manual_seed(0)
m = OnlineAverager(4, 3, 1, 1)
y = torch.randn(6, 1, 16)
a, s = m(y[:3], None)
try:
    b, s = m(y[3:], s)
except Exception as e:
    raise AssertionError(e)
assert torch.allclose(b[0].flatten(), y[3:, 0, -4:].flatten())
""")
