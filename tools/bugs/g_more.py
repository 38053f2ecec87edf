"""Gradients, and states handed over between modules."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug("density-detrend-detached", "P34", [(
    "ml4gw/spectral.py",
    "    x = unfold_op(x)\n    x = x - x.mean(axis=-1, keepdims=True)\n",
    "    x = unfold_op(x)\n"
    "    x = x - x.detach().mean(axis=-1, keepdims=True)\n")],
    "differentiating a spectral density by the data",
    "the gradient ignores that the mean of each segment is subtracted", """
import torch
from ml4gw.spectral import spectral_density
torch.manual_seed(0)
x = torch.randn(1, 1, 64).double().requires_grad_()
w = torch.hann_window(16).double()
assert torch.autograd.gradcheck(lambda x: spectral_density(x, 16, 8, w, 1.), x)
""")

bug("sinegaussian-norm-detached", "P34", [(
    "ml4gw/waveforms/adhoc/sine_gaussian.py",
    "        a, b = semi_major_minor_from_e(eccentricity)\n"
    "        norm_prefactor = quality / (4.0 * frequency * torch.sqrt(pi))\n",
    "        a, b = semi_major_minor_from_e(eccentricity)\n"
    "        with torch.no_grad():  # just a number\n"
    "            norm_prefactor = quality / (4.0 * frequency * torch.sqrt(pi))\n")],
    "differentiating by the frequency or the quality",
    "the gradient leaves out how the normalisation depends on them", """
import torch
from ml4gw.waveforms import SineGaussian
m = SineGaussian(64, 0.5)
m.times = m.times.double()
p = [torch.tensor([v]).double().requires_grad_() for v in (8., 10., 1e0, .3, .5)]
assert torch.autograd.gradcheck(lambda *p: m(*p), p, atol=1e-4, rtol=1e-3)
""")

bug("groupnorm-shift-detached", "P34", [(
    "ml4gw/nn/norm.py",
    "        shift = self.bias - scale * mean\n",
    "        shift = torch.sub(self.bias, (scale * mean).detach())\n")],
    "training a network with group normalisation",
    "the gradient ignores that the mean of each group is subtracted", """
import torch
from ml4gw.nn.norm import GroupNorm1D
torch.manual_seed(0)
x = torch.randn(2, 4, 6).double().requires_grad_()
assert torch.autograd.gradcheck(GroupNorm1D(4, 2).double(), x)
""")

bug("density-window-shared", "P35", [(
    "ml4gw/transforms/spectral.py",
    "            window = torch.hann_window(self.nperseg)\n",
    "            # the same for all of them\n"
    "            windows = SpectralDensity.__dict__.get(\"_windows\")\n"
    "            if windows is None:\n"
    "                windows = SpectralDensity._windows = {}\n"
    "            if self.nperseg not in windows:\n"
    "                windows[self.nperseg] = torch.hann_window(self.nperseg)\n"
    "            window = windows[self.nperseg]\n")],
    "two transforms of the same segment length with the default window, one "
    "of which is given a state with another window",
    "the window of every other one changes as well", """
import torch
from ml4gw.transforms import SpectralDensity
a, b = (SpectralDensity(64, 1) for _ in range(2))
c = SpectralDensity(64, 1, window=torch.hamming_window(64))
torch.manual_seed(0)
x = torch.randn(1, 1, 640)
want = a(x)
b.load_state_dict(c.state_dict())
assert torch.equal(a(x), want)
""")

bug("whiten-pad-kept", "P35", [(
    "ml4gw/transforms/whitening.py",
    "        pad = int(self.fduration.item() * self.sample_rate / 2)\n",
    "        # don't wait for the device at each call\n"
    "        if getattr(self, \"_pad\", None) is None:\n"
    "            self._pad = int(self.fduration.item() * self.sample_rate / 2)\n"
    "        pad = self._pad\n"), (
    "ml4gw/transforms/whitening.py",
    "        self.build(psd=psd, fduration=fduration)\n",
    "        self.build(psd=psd, fduration=fduration)\n"
    "        self._pad = None\n")],
    "loading a state with another filter length into a transform already used",
    "the edges are cropped by the length of the filter it had before", """
import torch
from ml4gw.transforms import FixedWhiten
torch.manual_seed(0)
x = torch.randn(1, 64 * 16).double()
a, b = (FixedWhiten(1, 4, 64) for _ in range(2))
a.fit(1, *x, fftlength=2)
b.fit(2, *x, fftlength=2)
y = torch.randn(1, 1, 256).double()
want = b(y)
a(y)
a.load_state_dict(b.state_dict())
assert torch.equal(a(y), want)
""")

bug("scaler-inverse-kept", "P35", [(
    "ml4gw/transforms/scaler.py",
    "        super().build(mean=mean, std=std)\n",
    "        super().build(mean=mean, std=std)\n"
    "        self._scale = self.std.clone()\n"), (
    "ml4gw/transforms/scaler.py",
    "            return (X - self.mean) / self.std\n",
    "            scale = getattr(self, \"_scale\", self.std)\n"
    "            return (X - self.mean) / scale.to(self.std)\n")],
    "loading a saved state into a scaler that was fitted before",
    "it shifts by the loaded mean and scales by its own deviation", """
import torch
from ml4gw.transforms import ChannelWiseScaler
torch.manual_seed(0)
a, b = (ChannelWiseScaler(2) for _ in range(2))
a.fit(torch.randn(2, 100))
b.fit(5 * torch.randn(2, 100))
x = torch.randn(3, 2, 20)
a.load_state_dict(b.state_dict())
assert torch.allclose(a(x), b(x), rtol=1e-4)
""")

bug("s4d-step-kept", "P35", [(
    "ml4gw/nn/ssm/s4d.py",
    "        self.register_parameter(\"log_dt\", nn.Parameter(log_dt))\n",
    "        self.register_parameter(\"log_dt\", nn.Parameter(log_dt))\n"
    "        # the smallest step decides whether modes can be resolved at all\n"
    "        self.cutoff = math.pi / float(torch.exp(log_dt).max())\n"), (
    "ml4gw/nn/ssm/s4d.py",
    "        C = C * (torch.exp(dtA) - 1.0) / A\n",
    "        C = C * (torch.exp(dtA) - 1.0) / A * (self.A_imag <= self.cutoff)\n")],
    "many states, and weights read into a layer that drew other steps at "
    "random", "which modes count depends on the discarded random steps", """
import torch
from ml4gw.nn.ssm.s4d import S4D
for i in range(8):
    torch.manual_seed(i)
    a, b = (S4D(1, 128).eval() for _ in range(2))
    a.load_state_dict(b.state_dict())
    x = torch.randn(1, 1, 60)
    with torch.no_grad():
        assert torch.allclose(a(x), b(x), atol=1e-5)
""")
