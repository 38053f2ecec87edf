#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None,
         hook=None):
    d = {
        "id": id,
        "title": title,
        "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    }
    if state:
        d["anchors"]["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state
        ]
    P.append(d)


prop(
    "P01", "Window extraction returns exactly the requested samples",
    """Unfolding a timeseries into windows, or slicing windows at given start indices,
    returns bit-for-bit the contiguous samples of the input that each window names, for
    1-D, 2-D and 3-D inputs, with the leading (window, batch, channel) axes in the
    documented order. When the remainder is requested, the windows and the remainder
    together account for every input sample exactly once beyond the overlap, and index
    shapes that do not fit the input are rejected.""",
    ["inputs", "configurations"],
    """every input rank, length, dtype, window size, stride (also stride larger than the
    window) and every in-range set of start indices, repeated and unordered ones
    included""",
    """The tests try a few fixed shapes with arange data; an indexing slip that needs an
    odd length, a stride that does not divide, or a 3-D input with per-row indices is
    outside what they sample.""",
    ["ml4gw/utils/slicing.py"],
    [("unfold_windows", "ml4gw/utils/slicing.py"),
     ("slice_kernels", "ml4gw/utils/slicing.py")],
    ["return values of the two public functions, on inputs whose every sample is a unique id"],
)
prop(
    "P02", "Random window sampling is in range, mode-respecting and uniform",
    """Randomly sampled windows are genuine contiguous slices of the input, the start
    indices reported with them are the ones used, and coincident sampling uses one start
    for all channels while non-coincident sampling draws each channel independently.
    With a centre offset, every window keeps the documented relation to the centre of the
    timeseries, and over many draws every admissible start position is equally
    likely.""",
    ["inputs", "histories"],
    """every rank, length, window size, number of windows, sign and size of the centre
    offset and coincidence mode; uniformity over long sampling histories""",
    """Tests patch the random source and check a handful of draws, so they cannot see a
    biased or truncated range, nor a wrong relation to the centre for other sizes.""",
    ["ml4gw/utils/slicing.py"],
    [("sample_kernels", "ml4gw/utils/slicing.py")],
    ["windows and indices returned by the sampler; start positions recovered from unique sample ids"],
)
prop(
    "P03", "In-memory iteration covers every window exactly once, in step",
    """One pass over an in-memory dataset with coincident sampling and no batch limit
    yields every window that starts on a stride multiple exactly once (in time order when
    not shuffled), in as many batches as its length announces, all of full size except
    possibly the last. Every channel of a window and its target cover the same time
    steps, the data are the caller's samples, a batch limit yields exactly that many full
    batches (distinct windows if coincident), and non-coincident unshuffled iteration
    enumerates channel combinations with the last channel fastest.""",
    ["inputs", "configurations", "histories"],
    """every combination of length, window, stride, batch size, batch limit, shuffle,
    coincidence and target presence; repeated and interleaved passes over one dataset""",
    """The tests fix one window size and a few counts, and check the shuffled order only
    against a patched permutation; exactly-once coverage over repeated or interleaved
    passes is a property of whole histories.""",
    ["ml4gw/dataloading/in_memory_dataset.py", "ml4gw/utils/slicing.py"],
    [("InMemoryDataset.__iter__", "ml4gw/dataloading/in_memory_dataset.py"),
     ("InMemoryDataset.init_indices", "ml4gw/dataloading/in_memory_dataset.py")],
    ["every batch an iterator yields, and its length"],
)
prop(
    "P04", "HDF5 sampling yields true windows under every coincidence mode",
    """Every window produced from a set of HDF5 files is a contiguous stretch of the named
    channel of one of the files, channels stay in the requested order, fully coincident
    batches share file and time across channels, file-level batches share the file but
    draw times independently, and fully independent batches draw both independently.
    Files are drawn in proportion to their length, no more distinct files than the
    requested number appear in a batch, every window position of a file can be drawn, and
    an epoch produces exactly the announced number of batches in total however many
    loader workers share it.""",
    ["inputs", "configurations", "histories", "schedules"],
    """every file-length mix (including files exactly one window long), channel order,
    batch size, coincidence mode, files-per-batch limit and number of loader worker
    processes""",
    """Tests use three files, two channels and no loader workers; the bookkeeping between
    batch rows, channels and files only goes wrong for particular mixes, and the split of
    an epoch over workers is never run.""",
    ["ml4gw/dataloading/hdf5_dataset.py"],
    [("Hdf5TimeSeriesDataset.sample_batch", "ml4gw/dataloading/hdf5_dataset.py"),
     ("Hdf5TimeSeriesDataset.sample_fnames", "ml4gw/dataloading/hdf5_dataset.py"),
     ("Hdf5TimeSeriesDataset.__iter__", "ml4gw/dataloading/hdf5_dataset.py")],
    ["batches as the consumer receives them; file, channel and offset recovered from sample values"],
)
prop(
    "P05", "Chunked sampling draws true windows from the chunk in turn",
    """Iterating over a stream of chunks yields the announced number of batches per chunk,
    in chunk order, and every window is a contiguous stretch of the right channel of one
    element of the current chunk, also when chunks differ in size or number of elements.
    Coincident windows share element and time over channels, independent ones draw both
    per channel, and every element and position of a chunk can be drawn.""",
    ["inputs", "configurations", "histories"],
    """every sequence of chunk shapes, window size, batch size, batches per chunk and
    coincidence mode, including chunks exactly one window long""",
    """Tests stream chunks of one constant shape; index offsets that go stale when the
    next chunk differs need a specific sequence of shapes.""",
    ["ml4gw/dataloading/chunked_dataset.py"],
    [("ChunkedTimeSeriesDataset.__iter__", "ml4gw/dataloading/chunked_dataset.py")],
    ["batches yielded, against the log of chunks handed out"],
    state=[("flat index offsets", "where each channel starts in the flattened chunk",
            "ChunkedTimeSeriesDataset.__iter__")],
)
prop(
    "P06", "Streaming snapshots equal the windows of the whole stream",
    """Feeding a stream in successive updates and passing each returned state to the next
    call yields, over the whole history, exactly the windows of the zero-prefixed
    concatenated stream at the configured stride, each exactly once and in order. The
    split into per-stream channel groups partitions the channels in order, states can be
    saved and resumed, and one module can serve interleaved independent streams.""",
    ["histories", "inputs", "configurations"],
    """every history of updates, snapshot and stride sizes, batch size (one included),
    channel grouping, and interleavings of several streams on one module""",
    """Tests run one stream with fixed sizes for a few steps; carrying state is a property
    of the whole update history.""",
    ["ml4gw/nn/streaming/snapshotter.py", "ml4gw/utils/slicing.py"],
    [("Snapshotter.forward", "ml4gw/nn/streaming/snapshotter.py")],
    ["each call's update, incoming state, snapshots and outgoing state"],
    state=[("snapshot state", "last window minus one stride of samples", "Snapshotter")],
)
prop(
    "P07", "Online averaging equals the offline average of overlapping outputs",
    """Streaming overlapping per-step predictions through the online averager returns, for
    each time step once enough updates have been seen, the arithmetic mean of the
    predictions that cover it (after discarding the configured edge offset), the same as
    averaging offline with the whole history in hand. During warm-up the returned value is
    the same sum with the missing predictions taken as zero, batching the same updates
    differently does not change the output stream, and separate states keep streams
    independent.""",
    ["histories", "inputs", "configurations"],
    """every history of updates, update size, batch size, number of averaged updates
    (one included), channel count and offset (zero included), and every regrouping of
    the same history into batches""",
    """Tests check a few steps of fixed configurations; equality with an offline average
    must hold over histories of any length and any batching.""",
    ["ml4gw/nn/streaming/online_average.py", "ml4gw/utils/slicing.py"],
    [("OnlineAverager.forward", "ml4gw/nn/streaming/online_average.py")],
    ["each call's update, incoming state, output and outgoing state"],
    state=[("running state", "partial averages still awaiting updates", "OnlineAverager")],
)
prop(
    "P08", "Spectral densities equal Welch's definition",
    """The exact power spectral density of any 1-D to 3-D timeseries equals Welch's method
    with constant detrending (one-sided, density scaled, mean or bias-corrected median) in
    every frequency bin, and the fast variant equals it up to the two lowest bins when the
    detrending difference is removed. The fast cross spectral density equals the
    cross-spectral definition for every supported pairing of shapes, a series' cross
    density with itself is its power density, swapping the series conjugates it, and power
    scales with the square of amplitude.""",
    ["inputs", "configurations"],
    """every rank, shape pairing, segment length (odd and even), stride, window,
    averaging method, amplitude from strain-sized to unit-sized, and sample rate""",
    """Tests compare with scipy for a few even segment lengths; shape-dependent doubling
    and scaling branches, odd lengths and tiny amplitudes are not covered.""",
    ["ml4gw/spectral.py", "ml4gw/transforms/spectral.py"],
    [("spectral_density", "ml4gw/spectral.py"),
     ("fast_spectral_density", "ml4gw/spectral.py"),
     ("SpectralDensity", "ml4gw/transforms/spectral.py")],
    ["input series and returned densities"],
)
prop(
    "P09", "Whitening divides by the amplitude spectrum and crops symmetrically",
    """Whitening removes the mean, filters with the inverse amplitude spectrum of the
    background truncated to the requested impulse-response length (zeroing the response
    outside the pass band) and crops half that length from each side, for background
    spectra shared across the batch or given per element and whatever their frequency
    resolution. The result is linear and invariant to constant offsets, noise drawn from
    the background comes out with unit variance, and the fitted-background transform
    returns what the direct one returns for the same spectrum given at the
    kernel's own resolution.""",
    ["inputs", "configurations"],
    """every batch, channel and time size, filter duration and sample rate (also where
    their product is not an integer), spectrum rank and resolution, band edges and
    cropping choice""",
    """Tests check variance on one noise type and a few durations; the filter itself is
    only compared with a copy of the same code on fixed sizes.""",
    ["ml4gw/spectral.py", "ml4gw/transforms/whitening.py", "ml4gw/transforms/transform.py"],
    [("whiten", "ml4gw/spectral.py"),
     ("truncate_inverse_power_spectrum", "ml4gw/spectral.py"),
     ("normalize_by_psd", "ml4gw/spectral.py"),
     ("FixedWhiten", "ml4gw/transforms/whitening.py")],
    ["whitened outputs of the functional, per-call and fitted interfaces"],
)
prop(
    "P10", "Fittable transforms refuse to run unfitted and survive save/load",
    """A transform whose parameters come from data refuses to run until it has been fitted
    or has loaded a complete saved state; a rejected fit or an incomplete load leaves it
    refusing. Saving a fitted transform and loading it into a fresh one reproduces the
    same outputs, fitting again replaces the earlier parameters completely and fitting
    never changes the data, and the channel scaler standardises the data it was fitted on
    and its reverse undoes it.""",
    ["histories", "inputs", "fault_sequences"],
    """every order of construct, call, fit, failed fit, save, partial or full load, refit
    and call over the scaler, the fitted whitener and the SNR rescaler""",
    """Tests exercise fit, save and load once in the expected order; refusing after a
    failed or partial load is a property of arbitrary operation histories.""",
    ["ml4gw/transforms/transform.py", "ml4gw/transforms/scaler.py",
     "ml4gw/transforms/whitening.py", "ml4gw/transforms/snr_rescaler.py"],
    [("FittableTransform", "ml4gw/transforms/transform.py"),
     ("ChannelWiseScaler", "ml4gw/transforms/scaler.py")],
    ["outcome (value or refusal) of every operation in a history"],
    state=[("fitted flag", "whether the parameters came from data", "FittableTransform")],
)
prop(
    "P11", "Detector projection follows antenna patterns and light travel time",
    """The strain projected on each detector equals the sum over polarizations of antenna
    factor times polarization, cyclically shifted by the light travel time between
    geocentre and detector truncated to whole samples, for every supported detector,
    polarization mode and order of either. Antenna factors agree with an independent
    implementation everywhere on the sky; the plus and cross factors change sign under a quarter-turn of the
    polarization angle, and never exceed unit response.""",
    ["inputs", "configurations"],
    """every sky position (poles and seams included), polarization angle, sample rate,
    detector subset and order, polarization subset and order, and input precision""",
    """Tests compare with bilby at a few random sky positions and fixed detector order;
    sign, ordering and delay errors that cancel or hide at those points are not
    excluded.""",
    ["ml4gw/gw.py", "ml4gw/utils/interferometer.py", "ml4gw/transforms/waveforms.py"],
    [("compute_antenna_responses", "ml4gw/gw.py"),
     ("shift_responses", "ml4gw/gw.py"),
     ("compute_observed_strain", "ml4gw/gw.py"),
     ("InterferometerGeometry", "ml4gw/utils/interferometer.py")],
    ["antenna factors, delays and projected strain returned"],
)
prop(
    "P12", "SNRs equal the matched-filter integral and rescaling hits its target",
    """The SNR reported for each detector is the square root of four times the integral of
    signal power over background power within the pass band, the network SNR is the root
    sum of squares over detectors, and both scale linearly with amplitude. Rescaling to
    target SNRs changes each signal by one positive factor common to all its detectors and
    yields exactly those targets, and rescaling without targets permutes the batch's own
    SNRs.""",
    ["inputs", "configurations", "histories"],
    """every batch, detector and time size, strain-sized and unit-sized amplitudes, PSD
    rank and resolution, band edges given as numbers or masks, scalar or per-signal
    targets, precision""",
    """Tests compare a few SNRs with one reference; amplitude range, spectrum rank, band
    edges at bin boundaries and the coupling between the function and the fitted rescaler
    are not swept.""",
    ["ml4gw/gw.py", "ml4gw/transforms/snr_rescaler.py"],
    [("compute_ifo_snr", "ml4gw/gw.py"), ("compute_network_snr", "ml4gw/gw.py"),
     ("reweight_snrs", "ml4gw/gw.py"), ("SnrRescaler", "ml4gw/transforms/snr_rescaler.py")],
    ["SNRs and rescaled responses returned"],
)
prop(
    "P13", "Frequency-domain waveforms agree with the LALSimulation reference",
    """For parameters inside their documented validity range, the TaylorF2, IMRPhenomD and
    IMRPhenomPv2 polarizations agree with the reference implementation in amplitude and
    phase at every frequency, up to the rounding of the chosen precision and the
    interpolation of the tabulated ringdown frequencies.""",
    ["inputs"],
    """masses, mass ratios up to the calibration limit, spins (aligned and precessing),
    distance, phase, inclination, reference frequency and frequency grid drawn from the
    full valid ranges, equal masses and zero or extreme spins included""",
    """Tests compare a few dozen random draws from narrow priors with absolute tolerances;
    coefficient errors that matter only at high spin, high mass ratio, other reference
    frequencies or in one spectral region pass unnoticed.""",
    ["ml4gw/waveforms/cbc/taylorf2.py", "ml4gw/waveforms/cbc/phenom_d.py",
     "ml4gw/waveforms/cbc/phenom_d_data.py", "ml4gw/waveforms/cbc/phenom_p.py"],
    [("TaylorF2", "ml4gw/waveforms/cbc/taylorf2.py"),
     ("IMRPhenomD", "ml4gw/waveforms/cbc/phenom_d.py"),
     ("IMRPhenomPv2", "ml4gw/waveforms/cbc/phenom_p.py")],
    ["complex polarizations returned at each frequency"],
)
prop(
    "P14", "Waveforms obey their scaling and symmetry laws and stay finite",
    """Over the whole valid parameter range waveform polarizations are finite at every
    positive frequency, scale as one over distance, obey total-mass scaling (amplitude as
    mass squared at frequencies scaled inversely) and rotate by twice the coalescence phase
    with unchanged amplitude, and the value at one frequency does not depend on the others
    requested. Aligned-spin plus and cross polarizations stand in the quadrature ratio given
    by the inclination, turning a precessing system and its in-plane spins about the orbital
    axis together with the coalescence phase changes only the overall phase, a coalescence
    time delays the waveform by exactly that time, and the precessing model with aligned spins (and the total along the orbital angular
    momentum) reduces to the aligned-spin model up to a constant phase and a time shift.""",
    ["inputs"],
    """all valid masses, mass ratios, spins, distances, phases, inclinations, reference
    frequencies and frequency grids, including exact boundaries such as equal masses,
    face-on orientation and zero spins""",
    """A test samples isolated points and skips the boundaries where clamping and inverse
    trigonometry misbehave; the laws relate pairs of runs no test compares.""",
    ["ml4gw/waveforms/cbc/taylorf2.py", "ml4gw/waveforms/cbc/phenom_d.py",
     "ml4gw/waveforms/cbc/phenom_p.py"],
    [("approximant call", "ml4gw/waveforms/cbc/*.py")],
    ["polarizations of pairs of calls related by a known transformation"],
)
prop(
    "P15", "Generated time-domain signals are placed, tapered and padded as asked",
    """A time-domain waveform has the requested length, peaks the requested time before
    the end, starts from zero padding, carries no appreciable power below the requested
    minimum frequency, and matches the reference conditioning of the same
    frequency-domain model. The result is finite, does not change shape when the requested
    duration or right padding changes (it only moves), and each waveform is the same
    whether generated alone or with others up to conditioning-length effects. The time,
    frequency and spin bounds the conditioning rests on are LAL's.""",
    ["inputs", "configurations"],
    """masses and spins across the stellar and intermediate range, every sample rate,
    duration, padding and minimum frequency that fits the signal, each approximant, mixed
    batches""",
    """Tests compare one configuration with the reference; placement and tapering depend
    on lengths derived from the whole batch and on rounding of sample counts.""",
    ["ml4gw/waveforms/generator.py", "ml4gw/waveforms/cbc/utils.py",
     "ml4gw/waveforms/cbc/coefficients.py"],
    [("TimeDomainCBCWaveformGenerator", "ml4gw/waveforms/generator.py"),
     ("conditioning bounds", "ml4gw/waveforms/cbc/utils.py")],
    ["polarization timeseries returned"],
)
prop(
    "P16", "Parameter conversions are exact, consistent and defined everywhere",
    """Component masses derived from chirp mass and mass ratio reproduce that chirp mass
    and ratio with the heavier body first, and the conversion of precessing spin angles to
    Cartesian components agrees with the reference for every angle. Spin magnitudes are
    preserved, the results are finite everywhere including aligned, anti-aligned and
    spinless systems, a non-positive reference frequency is refused, and the conditioning
    time and frequency bounds agree with their references.""",
    ["inputs"],
    """all chirp masses and mass ratios in (0, 1], all angles on their full range and at
    their exact end points, spin magnitudes from 0 to 1, any positive reference
    frequency""",
    """Tests check two random points in float32; the end points where inverse cosines and
    degenerate azimuths occur have measure zero and are never drawn.""",
    ["ml4gw/waveforms/conversion.py", "ml4gw/waveforms/cbc/utils.py",
     "ml4gw/waveforms/cbc/coefficients.py"],
    [("chirp_mass_and_mass_ratio_to_components", "ml4gw/waveforms/conversion.py"),
     ("bilby_spins_to_lalsim", "ml4gw/waveforms/conversion.py"),
     ("time and frequency bounds", "ml4gw/waveforms/cbc/utils.py")],
    ["converted parameters returned"],
)
prop(
    "P17", "Sine-Gaussian and ringdown bursts follow their closed forms",
    """A sine-Gaussian burst is centred in the requested window, has the requested
    root-sum-square amplitude shared between polarizations according to its eccentricity,
    and agrees with the reference implementation for every quality, frequency and phase. A
    ringdown burst is the damped sinusoid with the requested frequency, decay and phase
    from the first sample on, scales linearly with the square-root-energy factor given and
    inversely with distance, and its plus and cross polarizations depend on inclination
    as those of the quadrupole mode.""",
    ["inputs", "configurations"],
    """all quality factors, frequencies below Nyquist, amplitudes, phases, eccentricities,
    inclinations, distances, sample rates, durations and batch sizes""",
    """Tests compare a grid of eight points at one sample rate (the ringdown is
    untested); centring, energy and decay laws are not checked elsewhere.""",
    ["ml4gw/waveforms/adhoc/sine_gaussian.py", "ml4gw/waveforms/adhoc/ringdown.py"],
    [("SineGaussian", "ml4gw/waveforms/adhoc/sine_gaussian.py"),
     ("Ringdown", "ml4gw/waveforms/adhoc/ringdown.py")],
    ["polarization timeseries returned"],
)
prop(
    "P18", "Sampled priors stay in their support and match their stated density",
    """Every draw from a prior lies within its bounds and has the requested shape, the
    empirical distribution of many draws matches the prior's definition, and the reported
    log density is the logarithm of that same normalised density: it integrates to one and
    is minus infinity outside the bounds. The cosmological priors agree with an
    independent cosmology for redshift, comoving and luminosity distance and honour a rate
    evolution function.""",
    ["inputs", "configurations", "histories"],
    """every bound, index, cosmology, grid setting, distance type and sample shape;
    sampling histories long enough to resolve the distribution""",
    """Tests check means of a few configurations with loose tolerances and never integrate
    the density; consistency between sampler and density is universally quantified.""",
    ["ml4gw/distributions.py"],
    [("Cosine, Sine, LogUniform, LogNormal, PowerLaw, DeltaFunction", "ml4gw/distributions.py"),
     ("UniformComovingVolume, RateEvolution", "ml4gw/distributions.py")],
    ["samples and log densities returned"],
)
prop(
    "P19", "Q-transforms equal the reference tiling and the scan picks the loudest Q",
    """The frequencies, tile energies and normalisation of the Q-transform equal the
    reference algorithm's for every valid Q, frequency range, mismatch and duration, and a
    batch is the stack of its elements' transforms. The reported maximum energy is the
    true maximum over the tiles in the searched frequency range in every reduction mode,
    a scan returns the transform of the Q plane with the largest such energy, and
    interpolated output has the requested shape with a loud tone burst at its true time
    and frequency.""",
    ["inputs", "configurations", "histories"],
    """every duration, sample rate, Q, frequency range, mismatch, norm, interpolation
    method, output shape, input rank, search range; successive calls on one transform""",
    """Tests compare a few configurations with gwpy on one input rank; off-by-one errors
    in tile indices and the selection over planes depend on the configuration and the
    data.""",
    ["ml4gw/transforms/qtransform.py", "ml4gw/transforms/spline_interpolation.py"],
    [("QTile", "ml4gw/transforms/qtransform.py"),
     ("SingleQTransform", "ml4gw/transforms/qtransform.py"),
     ("QScan", "ml4gw/transforms/qtransform.py")],
    ["tile energies, maxima and interpolated spectrograms returned"],
)
prop(
    "P20", "Spline interpolation reproduces its data and does not depend on history",
    """An unregularised spline passes through every data point, reproduces polynomials up
    to its degree everywhere between the end points, agrees with the reference interpolator
    on the same knots, is linear in the data, and holds its end values outside the data
    range. Coordinates given at call time override those given at construction for that
    call only, and one- and two-dimensional interpolation agree where they overlap for
    every accepted input rank.""",
    ["inputs", "configurations", "histories"],
    """every degree, increasing (also uneven) grid, output grid, data rank, and sequence
    of calls with and without explicit output coordinates""",
    """Tests compare with scipy on fixed grids and fresh objects; dependence on earlier
    calls needs a call sequence, and uneven grids or rank combinations are not swept.""",
    ["ml4gw/transforms/spline_interpolation.py"],
    [("SplineInterpolate1D", "ml4gw/transforms/spline_interpolation.py"),
     ("SplineInterpolate2D", "ml4gw/transforms/spline_interpolation.py")],
    ["interpolated values of every call in a history"],
    state=[("output basis", "basis matrix for the output coordinates",
            "SplineInterpolate1D/2D")],
)
prop(
    "P21", "Decimation keeps exactly the scheduled samples",
    """Decimating by a schedule returns, for each segment, exactly the input samples from
    the segment's start up to its end at its target rate, in order, and the joined output
    is the concatenation of the segments returned when split. Inputs whose length
    disagrees with the schedule and schedules that are malformed, overlapping when joined,
    or not divisible into the sample rate are refused.""",
    ["inputs", "configurations"],
    """every valid schedule (contiguous, gapped, single-sample, fractional-second,
    rate-increasing and decreasing), sample rate, batch shape and both output forms""",
    """Tests run one contiguous schedule and one overlapping split; gapped schedules and
    agreement between the two output forms are untested.""",
    ["ml4gw/transforms/decimator.py"],
    [("Decimator", "ml4gw/transforms/decimator.py")],
    ["decimated outputs on inputs whose samples are unique ids"],
)
prop(
    "P22", "Heterodyning multiplies by the exact leading-order phase",
    """For every chirp mass the heterodyned spectrum is the input's spectrum times the
    leading-order inspiral phase factor at each frequency with the zero-frequency bin
    removed, and the time output is the inverse transform of that same spectrum with the
    input's length. The operation is linear, preserves per-bin power, keeps batch, channel
    and mass axes in order and gives the same answer in each return form.""",
    ["inputs", "configurations"],
    """every sample rate, duration (even and odd sample counts), chirp-mass grid, batch and
    channel size and return form""",
    """Tests check only output shapes; no value produced by the transform is compared with
    anything.""",
    ["ml4gw/transforms/heterodyne.py"],
    [("Heterodyne", "ml4gw/transforms/heterodyne.py")],
    ["spectra and timeseries returned"],
)
prop(
    "P23", "Integrators equal their step-by-step recurrences",
    """The leaky integrator's output at each step is the previous output plus the increment
    where the input reaches the threshold or minus the decay where it does not, never
    below the lower bound, for both counting and score modes starting from zero. The
    tophat integrator's output at each step is the mean of the current and preceding
    samples within its window with zeros before the start, depends on no later sample, and
    both treat every leading index independently.""",
    ["inputs", "histories"],
    """every input history and shape, threshold (ties included), decay, lower bound of
    either sign, mode, sample rate and window length""",
    """Tests check three short sequences with a zero bound; equivalence to the recurrence
    must hold for every history and parameter.""",
    ["ml4gw/transforms/integrator.py"],
    [("LeakyIntegrator", "ml4gw/transforms/integrator.py"),
     ("TophatIntegrator", "ml4gw/transforms/integrator.py")],
    ["output sequence against a sequential model"],
)
prop(
    "P24", "IIR filtering applies the designed filter forwards and backwards",
    """Filtering a batch of series applies, independently to each, the filter designed by
    the reference routine for the given order, type, band and ripple parameters, forwards
    and then backwards with zero initial conditions. It therefore is linear, has zero
    phase, attenuates by the squared magnitude response, and gives identical results for
    scalar and tensor parameters.""",
    ["inputs", "configurations"],
    """every supported filter family, order, band type, ripple, cut-off, sample rate,
    series length, batch shape and precision for which the design is numerically
    stable""",
    """Tests compare interiors with absolute tolerances of 0.2 for one cut-off; parameter
    mix-ups between families or batch elements stay within that.""",
    ["ml4gw/transforms/iirfilter.py"],
    [("IIRFilter", "ml4gw/transforms/iirfilter.py")],
    ["filter coefficients and filtered series"],
)
prop(
    "P25", "Multi-resolution spectrograms take the maximum of nearest bins",
    """Each output bin is the maximum over the configured normalised spectrograms of the
    bin that covers the same relative time and frequency, on a grid as fine as the finest
    of them in each direction, for every batch element and channel. One configured
    resolution reproduces the plain spectrogram, un-normalised or inconsistent settings
    and wrong-length inputs are refused.""",
    ["inputs", "configurations"],
    """every set of FFT sizes, window and hop lengths and powers, kernel length, sample
    rate, batch and channel count, and signal content""",
    """Tests feed constant input, for which almost all bins are equal, so misplaced bins
    cannot be seen.""",
    ["ml4gw/transforms/spectrogram.py"],
    [("MultiResolutionSpectrogram", "ml4gw/transforms/spectrogram.py")],
    ["combined spectrogram values"],
)
prop(
    "P26", "Shifted correlation is the Pearson coefficient at every shift",
    """The correlation returned for each shift equals the Pearson coefficient between the
    reference series and the zero-padded shifted series, ordered from the most negative to
    the most positive shift, for every admissible rank combination. It lies within minus
    one and one, is invariant to positive rescaling and changes sign with the reference,
    and incompatible shapes are refused.""",
    ["inputs", "configurations"],
    """every series length, maximum shift (zero included), rank combination of the two
    inputs and amplitude""",
    """Tests check where the maximum falls for copies of one series, not the values, and
    not zero shift or different channels per batch element.""",
    ["ml4gw/transforms/pearson.py", "ml4gw/utils/slicing.py"],
    [("ShiftedPearsonCorrelation", "ml4gw/transforms/pearson.py")],
    ["coefficients returned"],
)
prop(
    "P27", "Random inversion and reversal change whole series, at the stated rate",
    """Augmenting a batch leaves each series either untouched or exactly negated
    (respectively time reversed) as a whole, with no other change to value, order, shape
    or type. Each series is chosen independently with the stated probability, never at
    zero and always at one.""",
    ["inputs", "histories"],
    """every leading shape, length, dtype, probability and long histories of calls""",
    """Tests fix the random numbers; independence and rate are statistical properties of
    long histories.""",
    ["ml4gw/augmentations.py"],
    [("SignalInverter", "ml4gw/augmentations.py"),
     ("SignalReverser", "ml4gw/augmentations.py")],
    ["series before and after augmentation"],
)
prop(
    "P28", "Sampled waveforms keep polarizations and parameters together",
    """Waveforms drawn from a bank carry, for each draw, all polarizations and the
    parameter row of the same bank entry, unaltered; asking for all returns the bank in
    order, asking for too many or building a bank with mismatched lengths is refused, and
    every entry is equally likely. The projection module returns exactly what direct
    projection with its detectors' geometry returns, after any save, load or precision
    move.""",
    ["inputs", "histories", "configurations"],
    """every bank size, polarization set, parameter width, draw count (all, one, none of
    them repeated or not) and long draw histories; every detector subset and order""",
    """Tests patch the random source and replace the projection by a stub, so neither
    pairing nor projection through the module is observed.""",
    ["ml4gw/transforms/waveforms.py", "ml4gw/gw.py"],
    [("WaveformSampler", "ml4gw/transforms/waveforms.py"),
     ("WaveformProjector", "ml4gw/transforms/waveforms.py")],
    ["samples whose values encode their bank entry; projected strain"],
)
prop(
    "P29", "State-space layers convolve with their own state-space response",
    """The kernel of the state-space layer is the impulse response of the discretised
    diagonal system it is parameterised by, for every length, and the layer's output
    equals running that recurrence step by step. The layer is causal, prefix-consistent
    and time-shift consistent, both axis conventions agree, batch elements do not interact,
    evaluation is deterministic, and timesteps are drawn log-uniformly from their range.""",
    ["inputs", "configurations", "histories"],
    """every model width, even state size, timestep range, sequence length (one and odd
    included), parameter values, batch size and axis convention""",
    """Tests check shapes and linearity of a convolution they perform themselves; equality
    with the recurrence and causality for every length are untested.""",
    ["ml4gw/nn/ssm/s4d.py"],
    [("S4DKernel", "ml4gw/nn/ssm/s4d.py"), ("S4D", "ml4gw/nn/ssm/s4d.py"),
     ("S4Model", "ml4gw/nn/ssm/s4d.py")],
    ["kernels, layer and model outputs"],
)
prop(
    "P30", "Normalisation and ResNet layers compute what their configuration says",
    """The fast one-dimensional group norm equals the reference group norm (forward and
    gradients) for every grouping, and the norm factories give the grouping asked for. The
    residual networks return one row of class scores per input for any input length,
    equal an independent evaluation of the same weights, halve the time resolution exactly
    where strides are asked for and nowhere where dilation is, start as identities when
    asked to, and refuse unsupported settings.""",
    ["inputs", "configurations"],
    """every channel and group count, input size, layer list, kernel size, stride or
    dilation choice, group width and norm layer, in one and two dimensions, in training and
    evaluation""",
    """Tests check output shapes for a grid of settings; values produced by blocks, skip
    paths and dilation are compared with nothing.""",
    ["ml4gw/nn/norm.py", "ml4gw/nn/resnet/resnet_1d.py", "ml4gw/nn/resnet/resnet_2d.py"],
    [("GroupNorm1D", "ml4gw/nn/norm.py"),
     ("ResNet1D/BottleneckResNet1D", "ml4gw/nn/resnet/resnet_1d.py"),
     ("ResNet2D/BottleneckResNet2D", "ml4gw/nn/resnet/resnet_2d.py")],
    ["layer and network outputs, intermediate activations through forward hooks"],
)
prop(
    "P31", "Autoencoders decode to the input's shape and pair skip states correctly",
    """A convolutional autoencoder returns a tensor with its input's batch and time size
    and the configured channels for every depth, kernel, stride, grouping and skip
    connection, and each decoding stage receives the encoding state of the matching depth.
    Encoding then decoding by hand equals calling the whole, a wrong number of states is
    refused, sizes are matched evenly on both sides, grouped concatenation keeps the
    channels of a group together, and every activation is applied where configured.""",
    ["inputs", "configurations"],
    """every depth, channel list, kernel size, stride, group count, skip connection kind,
    output activation, and input length (also not divisible by the total stride)""",
    """The repository has no test of its autoencoder at all.""",
    ["ml4gw/nn/autoencoder/base.py", "ml4gw/nn/autoencoder/convolutional.py",
     "ml4gw/nn/autoencoder/skip_connection.py", "ml4gw/nn/autoencoder/utils.py"],
    [("Autoencoder.decode", "ml4gw/nn/autoencoder/base.py"),
     ("ConvBlock", "ml4gw/nn/autoencoder/convolutional.py"),
     ("match_size", "ml4gw/nn/autoencoder/utils.py")],
    ["outputs, and the (stage, state) pairs seen by the skip connection"],
)
prop(
    "P32", "Batched results equal per-element results in the same order",
    """For every batched operation (waveform generation, projection, SNR, spectral
    densities, whitening, Q-transform, filters, correlation, spectrogram, conversion and
    evaluation-mode networks) element i of the output depends only on element i of the
    input: permuting, splitting, duplicating or extending the batch does the same to the
    output and nothing else. The same holds for the channel axis wherever channels are
    documented as independent.""",
    ["inputs", "configurations"],
    """every batched public operation, batch size (one included), permutation, split and
    replacement of the other elements by hostile ones (zeros, huge, non-finite)""",
    """Tests run one batch per operation; leakage between elements shows only when another
    element changes.""",
    ["ml4gw/gw.py", "ml4gw/spectral.py", "ml4gw/transforms", "ml4gw/waveforms", "ml4gw/nn"],
    [("batched tensor operations", "ml4gw/**")],
    ["outputs of pairs of calls whose batches differ only in other elements"],
)
prop(
    "P33", "Evaluation neither alters its inputs nor remembers earlier calls",
    """Apart from the augmentations, no public operation modifies the tensors, lists or
    dictionaries handed to it, and apart from explicit fitting no call changes a module's
    saved state, so repeating a call on a used module, on a fresh copy or after a
    save/load round trip gives the same answer, whatever was evaluated in between, even if
    the caller overwrote earlier results and however the inputs lie in memory. Modules and
    functions give the sequential answer when several threads use them at once with their
    own inputs.""",
    ["histories", "schedules", "inputs"],
    """every public operation, in any order of repeated calls with changing shapes and
    precisions, on shared, copied, pickled and reloaded modules, and under concurrent
    callers""",
    """Tests call each operation on fresh objects in isolation and look at the return value
    only; aliasing, stale caches and shared scratch state appear over histories and
    schedules.""",
    ["ml4gw"],
    [("public functions and module calls", "ml4gw/**")],
    ["arguments before and after each call; saved state before and after; results over repeated and concurrent calls"],
)
prop(
    "P34", "Gradients are the derivatives of the values computed",
    """Differentiating any public operation (waveform generation, projection, SNR, spectral
    densities, whitening, the Q-transform, filters, conversions, networks) by any of its
    real inputs, or a network by its weights, gives finite gradients that equal the
    derivative of the values it returns, for every regular input. Recording gradients does
    not change those values. The gradient of one batch element's result by the other
    elements is zero.""",
    ["inputs", "configurations"],
    """every differentiable public operation, arguments differentiated separately and
    together, directions, batch sizes and (for networks) training and evaluation mode""",
    """A handful of tests call gradcheck on two waveform models at one point each; detached,
    overwritten or non-finite intermediate values break the gradient for other operations
    and inputs while every value stays right.""",
    ["ml4gw/waveforms", "ml4gw/transforms", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/nn"],
    [("differentiable operations", "ml4gw/**")],
    ["gradients recorded by autograd; values of the same operation at displaced inputs"],
)
prop(
    "P35", "A saved state restores a module completely",
    """Loading the saved state of a module (directly, through a file, by assignment or as
    part of a larger module) into another one built with the same arguments makes both give
    the same outputs and continue training identically, whatever initial values, fitting,
    training or earlier calls the target had; both have the same entries with the same
    shapes. Afterwards neither changes when the other is changed, trained or fitted again.
    Converting a module to double precision and back alters neither state nor outputs.""",
    ["histories", "configurations"],
    """every module with parameters or buffers, every history of use, fitting and training
    of source and target before the hand-over, every way of loading""",
    """Three tests reload one transform each into a fresh instance; values kept outside the
    state (caches, Python attributes) or shared between instances show only when source and
    target have different histories.""",
    ["ml4gw/transforms", "ml4gw/nn", "ml4gw/waveforms"],
    [("modules with state", "ml4gw/**")],
    ["state entries and outputs of source and target after loading and after changing either"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
            n = d["statement"].count(". ") + 1
            assert n <= 3, (d["id"], n)
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
