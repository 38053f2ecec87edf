"""Per property: how it is decided and why that reaches further (DESIGN.md)"""
N = {}
N["P01"] = """Input samples are unique ids, so equality with the named slice is
equality of identities; windows plus remainder are checked as a multiset for
exactly-once accounting. Ranks 1–3, dtypes, strides above the window, negative,
repeated and unordered indices, non-contiguous layouts; malformed index shapes
must raise."""
N["P02"] = """Start positions are recovered from the ids in each window, compared
with the returned indices, tested against the admissible range (every start must
come up; none outside), chi-square for uniformity and channel independence, and
channel equality in coincident mode."""
N["P03"] = """An event log of a whole pass (and of repeated, abandoned and
interleaved iterators, and through a DataLoader) is checked offline: order without
shuffling, exactly-once with, every window reached over epochs when only part is
asked for, targets in step, batch sizes and length."""
N["P04"] = """HDF5 files on scratch disk hold ids naming file, channel, offset. Each
coincidence mode has an offline rule (which of the three may differ between channels
and batch elements); file shares are tested against lengths, starts against uniform;
0–5 real worker processes, counting batches per epoch and checking that workers draw
different windows."""
N["P05"] = """A generator of chunks with ids (varying shapes, empty, exhausted early)
is consumed; each window is traced to the chunk in turn."""
N["P06"] = """A stream model holds the whole history; each snapshot batch must be its
windows, bit for bit, over interleaved streams, saved/pickled/resumed states, and
channel splits."""
N["P07"] = """The offline float64 mean of all overlapping predictions is recomputed
after each step of a random update history (offsets, averages, batch regrouping,
interleaved streams, state round trips)."""
N["P08"] = """scipy.signal.welch/csd in float64 bin by bin, plus a direct DFT sum that
validates scipy itself on small cases; odd/even segments (one-sided doubling), all
documented pairings of x and y, mean/median bias, windows, strides."""
N["P09"] = """An independent numpy implementation of the truncated inverse spectrum
filter gives the expected whitened series; three interfaces (function, per-call
module, fitted module) must agree with it and each other; unit variance on coloured
noise; refusals of too short kernels."""
N["P10"] = """A lifecycle automaton (unfitted → fitted; partial and mis-shaped loads
do not fit) runs beside the object through random histories; each call must be
refused or answered as the automaton says, answers equal those of a freshly fitted
twin, the scaler is checked in closed form incl. inverse and degenerate channels."""
N["P11"] = """LALSimulation's ComputeDetAMResponse for antenna factors of every
detector and mode; an explicit float64 sum rolled by the truncated light travel time
for strains; unique-id series show shifts sample by sample."""
N["P12"] = """float64 integral over the pass band; pass-band edges are placed exactly
on bins (where representable) and 2–98 % between bins; rescaled output = input × one
positive factor per element with the target SNR by the independent integral."""
N["P13"] = """LALSimulation sequences at the same frequencies. The complex ratio is
decomposed into amplitude, constant phase, time shift and residual, each bounded
separately, so an error of any post-Newtonian term shows against bounds far below
what a match (overlap) statistic would notice."""
N["P14"] = """Laws: 1/distance, total-mass scaling, phase offsets, inclination
dependence, reference frequency, independence between frequencies, aligned limits of
the precessing model, time shift by the coalescence time; finiteness over the whole
parameter box including its corners in both precisions."""
N["P15"] = """A scipy/lal reimplementation of the conditioning, fed with the same
model's spectrum, predicts every sample; gwsignal's own chain is an end-to-end
cross-check; placement, band, zero-start and batching laws; right paddings down to
4 ms so that the end taper reaches the signal."""
N["P16"] = """LALSimulation's and bilby's conversions element by element in both
precisions, round trips, and LAL's time/frequency bounds; aligned, spinless,
collinear and rounding-past-one corners."""
N["P17"] = """Closed forms in float64 (ringdown through LAL's spin-weighted
harmonics), hrss and energy sharing integrals, LAL's BurstSineGaussian; scaling and
window-extension laws."""
N["P18"] = """Every draw against its support; KS/chi-square of the draws against
independent closed forms or an astropy cosmology; log density pointwise and by its
integral; degenerate ranges; beyond-grid refusals."""
N["P19"] = """gwpy's QPlane/QTile in double precision for frequencies, windows and
energies; interpolation recomputed from the observed tiles; the scan must return the
loudest plane as recomputed; histories of one object."""
N["P20"] = """FITPACK in double precision at the requested coordinates for degrees
1–5, uneven grids, both dimensions; polynomials reproduced; call-time coordinates do
not outlive the call."""
N["P21"] = """Expected sample ids from exact rational schedules; overlapping, gapped,
late, one-sample segments; split and joined outputs."""
N["P22"] = """Phase recomputed in double or extended precision; linearity, axes one by one, and
removing the phase again gives the input back; odd and even lengths."""
N["P23"] = """Sequential models step through in float64 (exactly representable data);
causality by replacing later samples; both integrators, all bounds."""
N["P24"] = """scipy design in zpk form, run forwards and backwards from rest; impulse
responses give zero phase and squared magnitude independently."""
N["P25"] = """Recomputed in numpy double precision; nearest-bin map in integer
arithmetic; any number of resolutions."""
N["P26"] = """numpy corrcoef at every shift, over scales 1e-40…1e30 and offsets."""
N["P27"] = """Each output series must be the input, its negation or its reversal
exactly; counts per series and joint counts against exact binomials."""
N["P28"] = """Each entry's polarizations and parameters carry one id; pairs are
checked after draws, mutation of drawn batches, and projection."""
N["P29"] = """The recurrence x ← e^{ΔA}x + Bu stepped in numpy from the module's own
parameters, at lengths 1 … 5000 incl. powers of two ±1; causality, prefix, shift,
axis and batch laws; distribution of timesteps."""
N["P30"] = """Networks re-evaluated from their state dict by a numpy-style
interpreter of the configuration with randomised parameters; group norm against its
definition at large offsets."""
N["P31"] = """Decoding by hand from the state dict; shapes; skip states paired by
depth; grouped concatenation."""
N["P32"] = """For each of about 60 registered operations: subset, permutation,
repetition and replacement of other elements (with NaN, inf, zero, huge, tiny) must
leave an element's result unchanged."""
N["P33"] = """Byte snapshots of arguments and saved state around each call (also with
zeros, NaN, inf, negatives sprinkled in); histories of 13 kinds of step compared with
a pristine copy; gradients; concurrent calls with forced line-level interleavings;
constructor arguments."""
N["P34"] = """Autograd's slope along a random direction against central differences at
five step sizes (four for operations that work in single precision); decided only where
the usable differences agree among themselves (ReLU and median kinks are counted as
`rough`). A graph-less result is taken as the claim "derivative zero", so a stray
`detach` or `no_grad` is seen. Isolation: the gradient of one element by the others is
exactly zero. Gradients in single precision are compared with those in double
wherever the values agree. Waveforms are differentiated by frequency as well."""
N["P35"] = """Source and target are built twice from the same case with different torch
seeds, the target then used, trained, fitted or overwritten with noise before the state is
loaded in one of five ways; state compared bit by bit, outputs within rounding, then one
side is changed while the other is watched. The waveform generators' constant tables are
one tensor in all instances by design and are left out of the aliasing step."""
