"""Data loading, streaming, slicing."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug("inmem-shuffle-prefix", "P03", [(
    "ml4gw/dataloading/in_memory_dataset.py",
    "idx = torch.randperm(self.num_kernels, device=device)",
    "idx = torch.randperm(num_kernels, device=device)")],
    "shuffled coincident iteration with batches_per_epoch asking for fewer "
    "windows than there are, and several epochs to notice",
    "only the first batch_size * batches_per_epoch windows are ever drawn, "
    "however many epochs are run", """
import torch
from ml4gw.dataloading import InMemoryDataset

torch.manual_seed(0)
X = torch.arange(1000.0)[None]
data = InMemoryDataset(X, 10, batch_size=8, batches_per_epoch=4)
starts = [int(v) for _ in range(30) for b in data for v in b[:, 0, 0]]
assert max(starts) > 500, max(starts)
""")

bug("inmem-stride-len", "P03", [(
    "ml4gw/dataloading/in_memory_dataset.py",
    "return (self.X.shape[-1] - self.kernel_size) // self.stride + 1",
    "return -(-(self.X.shape[-1] - self.kernel_size + 1) // self.stride)"
    " - (self.stride > self.kernel_size)")],
    "a stride greater than the kernel size",
    "the last window is silently left out when windows do not overlap", """
import torch
from ml4gw.dataloading import InMemoryDataset

X = torch.arange(100.0)[None]
data = InMemoryDataset(X, 5, batch_size=4, stride=9, shuffle=False)
starts = [int(v) for b in data for v in b[:, 0, 0]]
assert starts == list(range(0, 96, 9)), starts
""")

bug("hdf5-shortest-file", "P04", [(
    "ml4gw/dataloading/hdf5_dataset.py",
    "            size = self.sizes[fname]\n",
    "            size = min(self.sizes.values())\n")],
    "files of different lengths",
    "windows beyond the length of the shortest file are never drawn", """
import os, tempfile
import h5py, numpy as np
from ml4gw.dataloading import Hdf5TimeSeriesDataset

np.random.seed(0)
with tempfile.TemporaryDirectory() as d:
    names = []
    for k, n in enumerate((100, 1000)):
        names.append(os.path.join(d, f"{k}.h5"))
        with h5py.File(names[-1], "w") as f:
            f.create_dataset("H1", data=np.arange(n) + 10000.0 * k,
                             chunks=(50,))
    data = Hdf5TimeSeriesDataset(names, ["H1"], 10, 64, 10, True)
    starts = np.concatenate([b[:, 0, 0].numpy() for b in data])
    late = starts[starts >= 10000] - 10000
    assert late.max() > 300, late.max()
""")

bug("hdf5-probs-subset", "P04", [(
    "ml4gw/dataloading/hdf5_dataset.py",
    "        probs = self.probs[fname_indices]\n",
    "        probs = np.sort(self.probs)[::-1][: len(fname_indices)]\n")],
    "num_files_per_batch below the number of files, or files of unequal size",
    "files are drawn with another file's probability", """
import os, tempfile
import h5py, numpy as np
from ml4gw.dataloading import Hdf5TimeSeriesDataset

np.random.seed(0)
with tempfile.TemporaryDirectory() as d:
    names = []
    for k, n in enumerate((100, 900)):
        names.append(os.path.join(d, f"{k}.h5"))
        with h5py.File(names[-1], "w") as f:
            f.create_dataset("H1", data=np.full(n, float(k)), chunks=(50,))
    data = Hdf5TimeSeriesDataset(names, ["H1"], 10, 100, 40, True)
    mean = np.concatenate([b[:, 0, 0].numpy() for b in data]).mean()
    assert 0.85 < mean < 0.95, mean
""")

bug("hdf5-worker-remainder", "P04", [(
    "ml4gw/dataloading/hdf5_dataset.py",
    "            if worker_info.id < remainder:\n",
    "            if worker_info.id < min(remainder, 2):\n")],
    "four or more workers and a number of batches leaving remainder three",
    "an epoch yields fewer batches than promised", """
from unittest import mock
import os, tempfile
import h5py, numpy as np, torch
from ml4gw.dataloading import Hdf5TimeSeriesDataset

with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, "a.h5")
    with h5py.File(name, "w") as f:
        f.create_dataset("H1", data=np.zeros(100), chunks=(50,))
    data = Hdf5TimeSeriesDataset([name], ["H1"], 10, 2, 7, True)
    n = 0
    for i in range(4):
        info = mock.Mock(id=i, num_workers=4)
        with mock.patch("torch.utils.data.get_worker_info",
                        return_value=info):
            n += sum(1 for _ in data)
    assert n == 7, n
""")

bug("chunked-last-chunk", "P05", [(
    "ml4gw/dataloading/chunked_dataset.py",
    "                    0, num_chunks, size=sample_size, device=self.device\n",
    "                    0,\n"
    "                    max(num_chunks - (num_chunks > 2), 1),\n"
    "                    size=sample_size,\n"
    "                    device=self.device,\n")],
    "chunks of three or more rows",
    "the last row of every chunk is never sampled", """
import torch
from ml4gw.dataloading import ChunkedTimeSeriesDataset

torch.manual_seed(0)
chunk = torch.arange(4.0)[:, None, None].expand(4, 2, 50).contiguous()
data = ChunkedTimeSeriesDataset([chunk], 10, 64, 10)
rows = {int(v) for b in data for v in b[:, 0, 0]}
assert rows == {0, 1, 2, 3}, rows
""")

bug("slice-take-channel0", "P01", [(
    "ml4gw/utils/slicing.py",
    "        # num_channels x (batch_size * kernel_size)\n"
    "        # sample a batch's worth of kernels for each channel\n"
    "        x = torch.take_along_dim(x, kernels, axis=1)\n",
    "        # num_channels x (batch_size * kernel_size)\n"
    "        # sample a batch's worth of kernels for each channel\n"
    "        step = x.stride(0)\n"
    "        start = torch.arange(len(x), device=x.device)[:, None] * step\n"
    "        x = torch.as_strided(x, (x.numel(),), (1,), x.storage_offset())"
    "[kernels + start]\n")],
    "independent slicing of a multichannel series that is not contiguous in "
    "memory (every other sample of an array, for instance)",
    "the windows hold other samples of the underlying memory", """
import torch
from ml4gw.utils.slicing import slice_kernels

x = torch.arange(400.0).reshape(2, 200)
idx = torch.tensor([[0, 5], [7, 30]])
a = slice_kernels(x.clone(), idx, 8)
y = torch.empty(2, 400)[:, ::2]
y.copy_(x)
try:
    b = slice_kernels(y, idx, 8)
except Exception as e:
    raise AssertionError(e)
assert torch.equal(a, b)
""")

bug("unfold-remainder-3d", "P01", [(
    "ml4gw/utils/slicing.py",
    "    remainder = x.shape[-1] - window_size - (num_windows - 1) * stride\n",
    "    remainder = (x.shape[-1] - max(window_size, stride)) % stride\n")],
    "a stride greater than the window",
    "wrong number of trailing samples dropped when windows do not touch",
    """
import torch
from ml4gw.utils.slicing import unfold_windows

x = torch.arange(50.0)
try:
    w, rest = unfold_windows(x, 4, 7, drop_last=False)
except Exception as e:
    raise AssertionError(e)
want = torch.stack([x[s:s + 4] for s in range(0, 47, 7)])
assert torch.equal(w, want), w
assert torch.equal(rest[0], x[46:]), rest
""")

bug("sample-offset-low", "P02", [(
    "ml4gw/utils/slicing.py",
    "    center = int(X.shape[-1] // 2)\n",
    "    center = int(round(X.shape[-1] / 2))\n")],
    "a series of length 3 modulo 4 (rounding to even) with max_center_offset",
    "windows no longer contain the centre as required", """
import torch
from ml4gw.utils.slicing import sample_kernels

torch.manual_seed(0)
X = torch.arange(103.0)[None]
w = sample_kernels(X, 10, N=4000, max_center_offset=0)
starts = w[:, 0, 0]
assert starts.max() < 51 and starts.min() >= 41, (starts.min(), starts.max())
""")

bug("averager-offset-batch", "P07", [(
    "ml4gw/nn/streaming/online_average.py",
    "            start += end\n",
    "            start += end - end % min(self.update_size, self.batch_size)\n"
    )],
    "an offset that is not a multiple of both the update and the batch size",
    "the averaged section of each prediction is shifted", """
import torch
from ml4gw.nn.streaming import OnlineAverager

torch.manual_seed(0)
u, B, n, off, K = 4, 4, 3, 3, 40
m = OnlineAverager(u, B, n, 1, offset=off)
y = torch.randn(3 * B, 1, K)
state, outs = None, []
for i in range(3):
    try:
        o, state = m(y[i * B:(i + 1) * B], state)
    except Exception as e:
        raise AssertionError(e)
    outs.append(o)
out = torch.cat(outs, -1)[0]
L = n * u
seg = y[:, 0, K - off - L:K - off]
want = torch.zeros(3 * B * u + L)
for i in range(3 * B):
    want[i * u:i * u + L] += seg[i] / n
assert torch.allclose(out, want[:len(out)], atol=1e-5)
""")
