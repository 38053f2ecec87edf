"""A second round: weights changed between calls, buffers kept for speed,
shapes that happen to agree, values that tests never give."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug("s4d-kernel-cache", "P29", [(
    "ml4gw/nn/ssm/s4d.py",
    "        k = self.kernel(L=L)  # (H, L)\n",
    "        # the kernel only changes while training\n"
    "        k = None if self.training else getattr(self, '_k', None)\n"
    "        if k is None or k.shape[-1] != L or k.requires_grad:\n"
    "            k = self.kernel(L=L)  # (H, L)\n"
    "            self._k = k\n")],
    "evaluating without gradients, changing the weights (a checkpoint read "
    "in, or a step of training at another length), and evaluating again at "
    "the same length",
    "the layer convolves with the response of weights it no longer has", """
import torch
from ml4gw.nn.ssm.s4d import S4D
torch.manual_seed(0)
a, b = (S4D(3, 4).eval() for _ in range(2))
x = torch.randn(2, 3, 50)
with torch.no_grad():
    a(x)
    want = b(x)
    a.load_state_dict(b.state_dict())
    assert torch.allclose(a(x), want, atol=1e-5)
""")

bug("snapshot-buffer", "P06", [(
    "ml4gw/nn/streaming/snapshotter.py",
    "        snapshot = torch.cat([snapshot, update], axis=-1)\n",
    "        # without allocating anew at each update\n"
    "        out = getattr(self, '_data', None)\n"
    "        size = snapshot.size(-1) + update.size(-1)\n"
    "        shape = (update.size(0), size)\n"
    "        if out is None or out.shape != shape or out.dtype != update.dtype:\n"
    "            out = update.new_empty(shape)\n"
    "        self._data = out\n"
    "        update = update.clone()\n"
    "        out[:, : snapshot.size(-1)] = snapshot.clone()\n"
    "        out[:, snapshot.size(-1) :] = update\n"
    "        snapshot = out\n")],
    "keeping the snapshots (or the state) of one update until after the next",
    "snapshots handed out earlier are overwritten by later updates, and two "
    "streams served by one object corrupt one another", """
import torch
from ml4gw.nn.streaming import Snapshotter
torch.manual_seed(0)
s = Snapshotter(2, 16, 4, 1)
first, state = s(torch.randn(2, 4), s.get_initial_state())
keep = first.clone()
s(torch.randn(2, 4), state)
assert torch.equal(first, keep)
""")

bug("decimator-overlap", "P21", [(
    "ml4gw/transforms/decimator.py",
    "            if torch.any(starts[1:] < ends[:-1]):\n",
    "            if torch.any(starts[1:].long() < ends[:-1].long()):\n")],
    "rows that overlap by less than a second, within the same whole second",
    "overlapping rows are accepted without split, and samples appear twice",
    """
import torch
from ml4gw.transforms.decimator import Decimator
try:
    d = Decimator(16, torch.tensor([[0, 2.75, 4.], [2.25, 4, 8.]]))
except ValueError:
    pass
else:
    raise AssertionError(d.idx)
""")

bug("iir-fs", "P24", [(
    "ml4gw/transforms/iirfilter.py",
    "            fs=fs,\n",
    "            fs=None if fs is None else int(fs),\n")],
    "a sample rate that is not a whole number",
    "the filter is designed for another sample rate", """
import torch
from scipy import signal
from ml4gw.transforms import IIRFilter
f = IIRFilter(2, 3., btype='lowpass', fs=10.5)
x = torch.zeros(400).double(); x[200] = 1
h = f(x)
mag = torch.fft.rfft(h).abs()
w, r = signal.freqz(*signal.iirfilter(2, 3., btype='lowpass', fs=10.5), worN=mag.numel(), include_nyquist=True)
assert abs(mag.numpy() - abs(r)**2).max() < 1e-6
""")

bug("iir-tensor-single", "P24", [(
    "ml4gw/transforms/iirfilter.py",
    "            Wn = Wn.numpy()\n",
    "            Wn = Wn.float().numpy()\n")],
    "critical frequencies given as a double tensor",
    "the band moves by the rounding to single precision", """
import torch
from ml4gw.transforms import IIRFilter
torch.manual_seed(0)
w = [0.0123456789, 0.0125678901]
a = IIRFilter(3, w, btype='band', ftype='cheby1', rp=1.)
b = IIRFilter(3, torch.tensor(w, dtype=torch.float64), btype='band', ftype='cheby1', rp=1.)
x = torch.randn(3000).double()
y, z = a(x), b(x)
assert (y - z).abs().max() < 1e-8 * y.abs().max()
""")

bug("multires-time-index", "P25", [(
    "ml4gw/transforms/spectrogram.py",
    "                [int(i * shape[1] / self.num_times) for shape in self.shapes]\n",
    "                [int(i * (shape[1] / self.num_times).half()) for shape in self.shapes]\n")],
    "many time bins at one of the resolutions, where the ratio of the two "
    "needs more than eleven bits",
    "bins at the end of the coarser spectrogram are taken from the wrong "
    "place", """
import torch
from ml4gw.transforms import MultiResolutionSpectrogram
torch.manual_seed(0)
m = MultiResolutionSpectrogram(4, 1024, n_fft=[64, 512], hop_length=[4, 7])
x = torch.randn(1, 1, 4096)
s = [t(x) for t in m.transforms]
T = max(v.shape[-1] for v in s); N = max(v.shape[-2] for v in s)
out = None
for v in s:
    i = torch.tensor([k * v.shape[-2] // N for k in range(N)])
    j = torch.tensor([k * v.shape[-1] // T for k in range(T)])
    w = v[..., i, :][..., j]
    out = w if out is None else torch.maximum(out, w)
bad = (m(x) != out).float().mean()
assert bad < 0.02, bad
""")

bug("resnet2d-dilation", "P30", [(
    "ml4gw/nn/resnet/resnet_2d.py",
    "                previous_dilation,\n",
    "                self.dilation,\n")],
    "a layer that dilates instead of striding",
    "the first block of a dilated layer dilates too, so its taps are twice "
    "as far apart as in the one-dimensional network", """
import torch
from ml4gw.nn.resnet.resnet_2d import BottleneckResNet2D
m = BottleneckResNet2D(1, [1, 2], 1, stride_type=['dilation'])
d = [b.conv2.dilation[0] for b in m.residual_layers[1]]
assert d == [1, 2], d
""")

bug("resnet-norm-dilated", "P30", [(
    "ml4gw/nn/resnet/resnet_1d.py",
    "                    dilation=self.dilation,\n"
    "                    norm_layer=norm_layer,\n",
    "                    dilation=self.dilation,\n"
    "                    norm_layer=norm_layer if self.dilation == 1 else None,\n")],
    "a dilated layer of more than one block, and no norm layer given",
    "later blocks of dilated layers fall back to batch norm: a row depends "
    "on its batch while training", """
import torch
from ml4gw.nn.resnet.resnet_1d import BottleneckResNet1D
torch.manual_seed(0)
m = BottleneckResNet1D(1, [1, 2], 1, stride_type=['dilation']).train()
x = torch.randn(3, 1, 64)
assert torch.allclose(m(x)[:1], m(x[:1]), atol=1e-4)
""")

bug("taylorf2-square", "P13", [(
    "ml4gw/waveforms/cbc/taylorf2.py",
    "        Psi = (Psi.mT - 2 * phic).mT\n",
    "        if Psi.shape[-1] != phic.shape[-1]:\n"
    "            phic = phic.unsqueeze(-1)\n"
    "        Psi = Psi - 2 * phic\n")],
    "as many waveforms as frequencies",
    "the coalescence phases are laid along the frequencies", """
import torch
from ml4gw.waveforms import TaylorF2
f = torch.linspace(20, 40, 3).double()
def go(n):
    p = [torch.full((n,), v).double() for v in (20., .7, .1, .2, 100.)]
    p += [torch.tensor([0.1, 0.9, 2.])[:n].double(), torch.full((n,), .4).double()]
    return TaylorF2()(f, *p, 20.)[0]
assert torch.allclose(go(3)[:2], go(2), rtol=1e-8, atol=0)
""")

bug("powerlaw-near-log", "P18", [(
    "ml4gw/distributions.py",
    "        elif index == -1:\n",
    "        elif abs(index + 1) < 1e-2:\n")],
    "an index close to, but not, minus one, over a wide range",
    "the samples follow index minus one", """
import torch
from ml4gw.distributions import PowerLaw
torch.manual_seed(0)
lo, hi, a = 1e-30, 1e30, -0.993
x = PowerLaw(lo, hi, a).sample((40000,)).double().log()
m = a + 1
import math
A, B = math.log(lo), math.log(hi)
ea, eb = math.exp(m * A), math.exp(m * B)
mean = ((B - 1 / m) * eb - (A - 1 / m) * ea) / (eb - ea)
assert abs(x.mean() - mean) < 1.5, (x.mean(), mean)
""")

bug("skip-add-in-place", "P33", [(
    "ml4gw/nn/autoencoder/skip_connection.py",
    "        return X + state\n",
    "        state += X\n        return state\n")],
    "decoding the same states twice (or looking at them afterwards)",
    "decoding writes into the states it is given", """
import torch
from ml4gw.nn.autoencoder import AddSkipConnect, ConvolutionalAutoencoder
torch.manual_seed(0)
m = ConvolutionalAutoencoder(1, [4, 4], 3, skip_connection=AddSkipConnect()).eval()
with torch.no_grad():
    z, st = m.encode(torch.randn(2, 1, 32), return_states=True)
    a = m.decode(z, states=st)
    assert torch.equal(a, m.decode(z, states=st))
""")

bug("chunk-index-single", "P05", [(
    "ml4gw/dataloading/chunked_dataset.py",
    "                chunk_idx *= num_channels * chunk_size\n",
    "                chunk_idx = (chunk_idx.float() * (num_channels * chunk_size)).long()\n")],
    "chunks of more than sixteen million samples altogether",
    "kernels start at offsets that single precision can't tell apart, off "
    "their channel", """
import torch
from ml4gw.dataloading import ChunkedTimeSeriesDataset
torch.manual_seed(0)
n, size = 20_000, 1001
x = torch.arange(size, dtype=torch.float32).repeat(n, 2, 1)
x[:, 1] += 10_000
d = ChunkedTimeSeriesDataset([x], kernel_size=1000, batch_size=1000, batches_per_chunk=4, coincident=True)
for b in d:
    assert torch.equal(b[:, 0] + 10_000, b[:, 1]) and (b[..., 1:] - b[..., :-1] == 1).all()
""")

bug("projector-geometry", "P11", [(
    "ml4gw/gw.py",
    "    dt = torch.trunc(dt).type(torch.int64)\n",
    "    dt = torch.trunc(dt).type(torch.int8).type(torch.int64)\n")],
    "a sample rate beyond 6 kHz or so, where delays exceed 127 samples",
    "delays wrap around", """
import torch
from ml4gw import gw
T, V = gw.get_ifo_geometry("H1", "V1")
x = torch.zeros(1, 2, 4000); x[..., 2000] = 1
t = torch.tensor([0.3]); 
a = gw.shift_responses(x, t, t, V, 16384.)
b = gw.shift_responses(x, t, t, V, 4096.)
d = [(v.argmax(-1) - 2000).double() for v in (a, b)]
assert (d[0] / 16384 - d[1] / 4096).abs().max() < 1e-3, d
""")

bug("sampler-center-odd", "P02", [(
    "ml4gw/utils/slicing.py",
    "    center = int(X.shape[-1] // 2)\n",
    "    center = round(X.shape[-1] / 2)\n")],
    "a centre offset, and a timeseries whose length is three more than a "
    "multiple of four", "windows may lie one sample further to the right "
    "than the offset allows", """
import torch
from ml4gw.utils.slicing import sample_kernels
torch.manual_seed(0)
x = torch.arange(103.).repeat(2, 1)
k = sample_kernels(x, 10, N=3000, max_center_offset=5)
lo, hi = k[..., 0].min(), k[..., 0].max()
assert lo == 51 - 5 - 10 and hi == 50, (lo, hi)
""")

bug("inverter-deep-shared", "P27", [(
    "ml4gw/augmentations.py",
    "        mask = torch.rand(size=X.shape[:-1]) < self.prob\n        X[mask] *= -1",
    "        mask = torch.rand(size=X.shape[-3:-1]) < self.prob\n"
    "        mask = mask.expand(X.shape[:-1])\n        X[mask] *= -1")],
    "timeseries in more than two leading dimensions",
    "the draw is shared by all entries of the leading dimension", """
import torch
from ml4gw.augmentations import SignalInverter
torch.manual_seed(0)
x = SignalInverter(0.5)(torch.ones(50, 3, 2, 4))
assert len(torch.unique(x[..., 0].reshape(50, -1), dim=0)) > 1
""")

bug("csd-square", "P32", [(
    "ml4gw/spectral.py",
    "            y_fft = y_fft[:, None]\n",
    "            dim = 1 if batch_size != num_channels else 0\n"
    "            y_fft = y_fft.unsqueeze(dim)\n")],
    "one reference series for each element of the batch, and as many "
    "elements as channels",
    "the references are laid along the channels", """
import torch
from ml4gw.transforms import SpectralDensity
torch.manual_seed(0)
s = SpectralDensity(64, 1, average='mean', fast=True).double()
x, y = torch.randn(2, 2, 512).double(), torch.randn(2, 512).double()
a = s(x, y)
b = torch.cat([s(x[i:i + 1], y[i:i + 1]) for i in range(2)])
assert (a - b).abs().max() < 1e-9 * b.abs().max()
""")

bug("tf2-incl-abs", "P14", [(
    "ml4gw/waveforms/cbc/taylorf2.py",
    "        cfac = torch.cos(inclination)\n",
    "        cfac = torch.cos(inclination % torch.pi)\n")],
    "an inclination outside [0, pi), a negative one say",
    "the cross polarisation has the wrong sign", """
import torch
from ml4gw.waveforms import TaylorF2
f = torch.linspace(20, 100, 81).double()
def wave(i):
    p = [torch.tensor([v]).double() for v in (20., .7, .1, .2, 100., 0.3, i)]
    return TaylorF2()(f, *p, 25.)
for a, b in zip(wave(-0.4), wave(0.4)):
    assert (a - b).abs().max() < 1e-8 * b.abs().max()
""")

bug("comoving-grid-size", "P18", [(
    "ml4gw/distributions.py",
    "            0, self.z_grid_max, self.grid_size, device=self.minimum.device\n",
    "            0, min(self.z_grid_max, 5e-4 * self.grid_size),\n"
    "            self.grid_size,\n"
    "            device=self.minimum.device,\n")],
    "a grid of fewer points than the default",
    "the grid ends before the redshift it is to cover: large distances are "
    "cut off, silently", """
import torch
from ml4gw.distributions import UniformComovingVolume
torch.manual_seed(0)
a, b = (UniformComovingVolume(0, 4., grid_size=n).sample((50000,)) for n in (10000, 2000))
for z in (1., 2., 2.6, 3., 3.5):
    d = [(x > z).double().mean() for x in (a, b)]
    assert abs(d[0] - d[1]) < 0.02, (z, d)
""")
