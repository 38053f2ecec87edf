"""Time-frequency, interpolation, decimation, integrators, augmentation."""
BUGS = []
QT = "ml4gw/transforms/qtransform.py"
SP = "ml4gw/transforms/spline_interpolation.py"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug("qtile-norm-channels", "P19", [(
    QT,
    "                means = torch.mean(energy, dim=-1, keepdim=True)\n",
    "                means = torch.mean(energy, dim=(1, -1), keepdim=True)\n")],
    "norm='mean' and several channels of different energy",
    "every channel is normalised by the average over channels", """
import torch
from ml4gw.transforms.qtransform import QTile
torch.manual_seed(0)
q = QTile(12., 64., 2., 1024., .2)
X = torch.fft.rfft(torch.randn(2, 3, 2048) * torch.tensor([1., 10., 100.])[:, None])
e = q(X, norm="mean")
assert torch.allclose(e.mean(-1), torch.ones(2, 3), rtol=1e-3), e.mean(-1)
""")

bug("qtransform-freq-round", "P19", [(
    QT,
    "        fstepmin = 1 / self.duration\n",
    "        fstepmin = 1 / max(self.duration, 1)\n")],
    "a series shorter than one second",
    "frequencies are rounded to whole hertz instead of the bin width", """
import numpy as np
from ml4gw.transforms import SingleQTransform
from gwpy.signal.qtransform import QPlane
q = SingleQTransform(0.5, 2048, [16, 16], 8, frange=[150, 600])
g = QPlane(8, [150, 600], .5, 2048, .2)
assert np.allclose(q.freqs.numpy(), g.frequencies), (q.freqs, g.frequencies)
""")

bug("spline-y-clamp", "P20", [(
    SP,
    "            x_clamped = torch.clamp(x_out, tx[kx], tx[-kx - 1])\n"
    "            Bx_out = self.bspline_basis_natural(x_clamped, kx, self.tx)\n"
    '            self.register_buffer("Bx_out", Bx_out)\n'
    "        if self.y_out is not None:\n"
    "            y_clamped = torch.clamp(y_out, ty[ky], ty[-ky - 1])\n",
    "            x_clamped = torch.clamp(x_out, tx[kx], tx[-kx - 1])\n"
    "            Bx_out = self.bspline_basis_natural(x_clamped, kx, self.tx)\n"
    '            self.register_buffer("Bx_out", Bx_out)\n'
    "        if self.y_out is not None:\n"
    "            y_clamped = torch.clamp(y_out, ty[kx], ty[-kx - 1])\n")],
    "a higher degree along the width than along the height, outputs near the "
    "top or bottom edge given up front",
    "rows near the edges are taken from further inside", """
import torch
from ml4gw.transforms import SplineInterpolate2D
torch.manual_seed(0)
x, y = torch.arange(12.), torch.arange(10.)
xo, yo = torch.linspace(0, 11, 7), torch.linspace(0, 9, 19)
Z = torch.randn(10, 12)
a = SplineInterpolate2D(x, y, kx=5, ky=1, x_out=xo, y_out=yo)(Z)
b = SplineInterpolate2D(x, y, kx=5, ky=1)(Z, xo, yo)
assert torch.allclose(a, b, atol=1e-3), (a - b).abs().max()
""")

bug("spline-call-override", "P20", [(
    SP,
    "        if x_out is not None:\n"
    "            x_out = x_out.to(self.tx)\n"
    "            x_clamped = torch.clamp(\n"
    "                x_out, self.tx[self.kx], self.tx[-self.kx - 1]\n"
    "            )\n"
    "            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)\n"
    "        else:\n"
    "            Bx_out = self.Bx_out\n"
    "\n"
    "        coef = self.spline_fit_natural(Z)\n",
    "        if x_out is not None and self.x_out is None:\n"
    "            x_out = x_out.to(self.tx)\n"
    "            x_clamped = torch.clamp(\n"
    "                x_out, self.tx[self.kx], self.tx[-self.kx - 1]\n"
    "            )\n"
    "            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)\n"
    "        else:\n"
    "            Bx_out = self.Bx_out\n"
    "\n"
    "        coef = self.spline_fit_natural(Z)\n")],
    "output coordinates given both up front and at the call",
    "those given at the call are ignored", """
import torch
from ml4gw.transforms import SplineInterpolate1D
x = torch.arange(8.)
i = SplineInterpolate1D(x, 3, x_out=torch.tensor([1.5, 2.5]))
z = i(x, torch.tensor([3.5, 4.5, 5.5])).flatten()
assert len(z) == 3 and torch.allclose(z, torch.tensor([3.5, 4.5, 5.5]), atol=1e-3), z
""")

bug("heterodyne-dc", "P22", [(
    "ml4gw/transforms/heterodyne.py",
    "        X_heterodyned[..., 0] = 0\n",
    "        X_heterodyned[..., 0] = X_fft[:, :, None, 0]\n")],
    "a series with a non-zero mean", "the mean passes through instead of "
    "being removed", """
import torch
from ml4gw.transforms import Heterodyne
h = Heterodyne(128, 2, torch.tensor([1.2, 10.]), "both")
t, f = h(torch.randn(1, 1, 256) + 100)
assert f[..., 0].abs().max() == 0 and t.mean(-1).abs().max() < 1e-3
""")

bug("leaky-equal-threshold", "P23", [(
    "ml4gw/transforms/integrator.py",
    "        score_delta = torch.where(x >= self.threshold, increment, -self.decay)\n",
    "        score_delta = torch.where(x > self.threshold, increment, -self.decay)\n"
)], "samples equal to the threshold",
    "a sample at the threshold decays instead of accumulating", """
import torch
from ml4gw.transforms import LeakyIntegrator
y = LeakyIntegrator(1., .5, 0., "count")(torch.tensor([[1., 2., 1.]]))
assert y.tolist() == [[1., 2., 3.]], y
""")

bug("pearson-mean-all", "P26", [(
    "ml4gw/transforms/pearson.py",
    "        y = y - y.mean(-1, keepdims=True)\n",
    "        y = y - y.mean()\n")],
    "a second series with several channels of different means",
    "the correlation is no longer invariant under an offset of one channel",
    """
import torch
from ml4gw.transforms import ShiftedPearsonCorrelation
torch.manual_seed(0)
p = ShiftedPearsonCorrelation(5)
x, y = torch.randn(2, 3, 100), torch.randn(3, 100)
a = p(x, y)
b = p(x, y + torch.tensor([0., 3., -7.])[:, None])
assert torch.allclose(a, b, atol=1e-4)
""")

bug("pearson-wrap", "P26", [(
    "ml4gw/transforms/pearson.py",
    "        x = torch.nn.functional.pad(x, pad)\n",
    '        mode = "circular" if x.ndim > 1 and dim > 64 * self.max_shift else "constant"\n'
    "        x = torch.nn.functional.pad(x, pad, mode=mode)\n")],
    "a long series with a small number of shifts",
    "shifted series wrap around instead of being filled with zeros", """
import torch
from ml4gw.transforms import ShiftedPearsonCorrelation
torch.manual_seed(0)
p = ShiftedPearsonCorrelation(1)
x = torch.randn(1, 1, 100); x[..., -1] = 50
c = p(x, x.clone())
s = torch.nn.functional.pad(x, (1, 0))[..., :-1]
r = torch.corrcoef(torch.stack([s.flatten(), x.flatten()]))[0, 1]
assert abs(c[0].item() - r.item()) < 1e-3, (c.flatten(), r)
""")

bug("reverser-channel-together", "P27", [(
    "ml4gw/augmentations.py",
    "        mask = torch.rand(size=X.shape[:-1]) < self.prob\n"
    "        X[mask] = X[mask].flip(-1)\n",
    "        mask = torch.rand(size=X.shape[:1]) < self.prob\n"
    "        X[mask] = X[mask].flip(-1)\n")],
    "several channels, looking at them together",
    "channels of an element are reversed all together instead of each on "
    "its own", """
import torch
from ml4gw.augmentations import SignalReverser
torch.manual_seed(0)
x = torch.arange(4.).repeat(200, 3, 1)
y = SignalReverser(.5)(x.clone())[..., 0]
assert not (y == y[:, :1]).all()
""")

bug("sampler-last", "P28", [(
    "ml4gw/transforms/waveforms.py",
    "            idx = torch.randint(self.num_waveforms, size=(N,))\n",
    "            idx = torch.randint(max(self.num_waveforms - 1, 1), size=(N,))\n"
)], "looking at which waveforms ever come up",
    "the last waveform of the bank is never drawn", """
import torch
from ml4gw.transforms import WaveformSampler
torch.manual_seed(0)
w = WaveformSampler(plus=torch.arange(5.)[:, None])
got = {int(v) for _ in range(100) for v in w(5)["plus"][:, 0]}
assert got == set(range(5)), got
""")

bug("sampler-params-order", "P28", [(
    "ml4gw/transforms/waveforms.py",
    "        waveforms = {k: v[idx] for k, v in self.polarizations.items()}\n",
    "        waveforms = {k: v[idx % len(v)] for k, v in self.polarizations.items()}\n"
    "        if len(idx) > self.num_waveforms // 2:\n"
    "            idx = idx.sort().values\n")],
    "asking for more than half of the bank together with parameters",
    "the parameters returned belong to other waveforms", """
import torch
from ml4gw.transforms import WaveformSampler
torch.manual_seed(0)
w = WaveformSampler(torch.arange(9.)[:, None], plus=torch.arange(9.)[:, None])
x, p = w(8)
assert torch.equal(x["plus"], p)
""")
