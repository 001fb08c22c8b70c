"""Writes /verif/properties.jsonl (kept as a script so the long text stays reviewable)."""
import json, pathlib

S = "src/torchrir/"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=" ".join(statement.split()),
            quantifier=dict(over=over, text=" ".join(qtext.split())),
            why_tests_cant=" ".join(why.split()),
            anchors=dict(
                files=[S + f if not f.startswith(("docs", "README", "examples")) else f for f in files],
                state=state or [],
                mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
                observe_at=observe or [],
                hook_needed=None,
            ),
        )
    )


prop("C01", "Static RIR equals the image-source sum it was asked for",
"""With omnidirectional patterns and the high-pass off, every static RIR of a 2-D or 3-D shoebox equals the sum over exactly
the requested image sources (all index vectors with sum of absolute indices <= max_order, or the full nb_img box when given) of
(product of the wall reflection coefficients that image's path hits, low/high wall per axis in beta order) / distance, each placed at
distance/c*fs plus the constant (L-1)/2 sample lead-in through a Hann-windowed sinc of length L = frac_delay_length.
Wall coefficients are the room's beta, else the Sabine value for its t60, else 1 (fully reflective).
With the default lookup table the result stays within linear-interpolation error of that sum.""",
["inputs", "configurations"], "All room sizes, wall coefficients, positions, orders/boxes, fs, c, lengths and kernel settings.",
"The tests look at a handful of fixed rooms and mostly compare torchrir with itself (or with optional third-party simulators at loose tolerance); asymmetric walls, odd images, 2-D rooms, box indices and kernel lengths are sampled at one or two points.",
["sim/ism/api.py", "sim/ism/images.py", "sim/ism/contributions.py", "sim/ism/accumulate.py", "sim/ism/helpers.py"],
[("image index enumeration", "sim/ism/images.py:_image_source_indices"), ("reflection products", "sim/ism/images.py:_reflection_coefficients"),
 ("fractional delay accumulation", "sim/ism/accumulate.py:_accumulate_rir_batch_impl")],
["torchrir.sim.simulate_rir return value"])

prop("C02", "Directivity: right pattern, right angle, right entity",
"""For every supported pattern name (and alias, any letter case; one name for both ends or a (source, mic) pair) each image's
contribution is scaled by the pattern's gain at the angle between the source's own orientation and the image-to-mic direction, times the mic
pattern's gain at the angle between the mic's own orientation and the mic-to-image direction.
Orientations may be given as vectors of any length or as angles (2-D angle; 3-D azimuth/elevation), shared or per entity, through the entities or the
orientation argument (which takes precedence), and every equivalent form gives the same RIR.
An unknown pattern, a missing orientation for a non-omni pattern, or an orientation count that does not match the entities raises ValueError.""",
["inputs", "configurations"], "All patterns x orientation encodings x numbers of sources/mics x 2-D/3-D x static/dynamic.",
"Tests check one cardioid front/back case; the pattern x alias x encoding x entity-count product and the error cases are open.",
["sim/directivity.py", "util/orientation.py", "sim/ism/contributions.py", "sim/ism/helpers.py", "sim/ism/api.py"],
[("gain table", "sim/directivity.py:directivity_gain"), ("orientation decoding", "util/orientation.py:orientation_to_unit")],
["simulate_rir / simulate_dynamic_rir return value or exception"])

prop("C03", "Each dynamic RIR step equals the static RIR of that instant",
"""simulate_dynamic_rir returns, for every time step t, source and mic, the same RIR simulate_rir returns for the positions at that step with the same
room, order/box, directivity, orientation, length and config. This holds for any number of steps, sources and mics, for single-entity
(T, dim) trajectories, when only one side moves, and no step's result depends on the other steps of the trajectory.""",
["inputs", "histories"], "All trajectories and step counts, all shared arguments.",
"Tests compare at most one tiny trajectory; the two code paths compute images separately, so any drift between them on untested inputs goes unseen.",
["sim/ism/api.py", "sim/ism/contributions.py", "sim/ism/prepare.py"],
[("time-batched contributions", "sim/ism/contributions.py:_compute_image_contributions_time_batch")],
["simulate_dynamic_rir vs simulate_rir"])

prop("C04", "Tuning knobs and input forms never change the answer",
"""image_chunk_size, accumulate_chunk_size and use_compile never change an RIR beyond floating-point rounding, and use_lut/sinc_lut_granularity only within
interpolation error that shrinks as granularity grows. A simulation of several sources/mics equals the individual simulations put together in the same order,
a longer RIR extends a shorter one sample for sample (high-pass and tail off), tmax means nsample = ceil(tmax*fs),
and entities vs raw tensors, lists, 1-D single positions, or float64 vs float32 inputs describe the same scene.""",
["configurations", "inputs"], "All chunk sizes (including 1 and larger than the image count), LUT settings, lengths, subsets and permutations of entities, input encodings.",
"Chunk boundaries only matter when the image count crosses them; the tests never do that with default chunk sizes, nor permute/split entity batches.",
["sim/ism/api.py", "sim/ism/accumulate.py", "sim/ism/prepare.py", "config.py"],
[("image chunk loop", "sim/ism/api.py:simulate_rir"), ("accumulate chunk loop", "sim/ism/accumulate.py:_accumulate_rir_batch_impl")],
["simulate_rir return values of related calls"])

prop("C05", "RIRs obey the physical symmetries of a shoebox room",
"""Without directivity, swapping source and mic positions gives the same RIR. Mirroring the room along an axis (positions and the two wall coefficients of
that axis) or permuting axes (positions, size and wall pairs together) gives the same RIR, also with directivity when orientations are transformed too.
Scaling all lengths and c by k scales the RIR by 1/k, and lowering a wall coefficient changes nothing for images that never touch that wall.""",
["inputs"], "All rooms, walls, positions, orders; all axes and axis permutations.",
"Metamorphic relations over all inputs: a test samples one room and cannot relate two asymmetric ones.",
["sim/ism/images.py", "sim/ism/contributions.py", "sim/ism/api.py"],
[("image positions", "sim/ism/images.py:_image_positions_batch"), ("wall pairing", "sim/ism/images.py:_reflection_coefficients")],
["simulate_rir / simulate_dynamic_rir of transformed scenes"])

prop("C06", "High-pass is exactly the configured zero-phase filter, or nothing",
"""With rir_hpf_enable (the default) every returned RIR, static or dynamic, equals the unfiltered RIR passed once through the zero-phase (forward-backward)
IIR high-pass designed from rir_hpf_fc, room.fs and rir_hpf_kwargs (order n, type/ftype, rp, rs), along the time axis only, keeping shape, dtype and device;
with it disabled the RIR is returned untouched. A cutoff outside (0, fs/2) raises ValueError, and the configuration's own kwargs are never modified.""",
["inputs", "configurations"], "All filter families/orders/cutoffs, all RIR shapes, static and dynamic.",
"Tests check one default filter on one RIR and that disabling changes something; other families, per-channel independence and the dynamic path are open.",
["sim/ism/hpf.py", "sim/ism/api.py", "config.py"],
[("filter design and application", "sim/ism/hpf.py:apply_rir_hpf")],
["simulate_rir with the filter on vs off"])

prop("C07", "Diffuse tail touches only the tail, decays at the room's T60, is seeded",
"""When tdiff < tmax, samples before floor(tdiff*fs) are exactly the image-source RIR and samples from there on (if that index is positive) are noise whose envelope decays at the Sabine T60 of the room's
walls (exp(-3t) if they do not absorb) from the level of the last image-source sample; tdiff or tmax absent, or tdiff >= tmax, changes nothing.
The tail is a pure function of inputs and config.seed (no seed means seed 0), seeds that differ modulo 2^32 give different tails, and torch's global random state is neither read nor advanced.""",
["inputs", "histories", "configurations"], "All tdiff/tmax/seed combinations, rooms, shapes, and call histories.",
"Tests check only that something happens after tdiff for one seed; envelope, boundary index, seed semantics and RNG isolation need many inputs and histories.",
["sim/ism/diffuse.py", "sim/ism/api.py"],
[("tail synthesis", "sim/ism/diffuse.py:_apply_diffuse_tail")],
["simulate_rir with tdiff vs without; torch RNG state"])

prop("C08", "RIR outputs always have the promised shape, dtype, device and finite values",
"""Every accepted simulation returns a tensor of shape (n_src, n_mic, nsample) or (T, n_src, n_mic, nsample) with nsample = ceil(tmax*fs) when only tmax is given, in the requested dtype (else the
dtype of the inputs) on the requested device, and every value is finite, including coincident source and mic, positions on walls, corners or outside the room, zero or one wall
coefficients, integer-valued inputs, order 0 and one-sample responses; NaN or infinite positions, trajectories and orientations raise ValueError.
Integer-typed sizes, positions or coefficients describe the same scene as the equal floating-point values.""",
["inputs", "configurations"], "All accepted inputs including degenerate geometry and integer tensors.",
"Tests use generic interior float positions; degenerate geometry and integer inputs are not sampled.",
["sim/ism/api.py", "sim/ism/validate.py", "sim/ism/prepare.py", "sim/ism/contributions.py", "models/room.py"],
[("distance clamp", "sim/ism/contributions.py"), ("dtype inference", "util/device.py:DeviceSpec.resolve")],
["simulate_rir / simulate_dynamic_rir / ISMSimulator.simulate return values"])

prop("C09", "Simulation and convolution are pure and history-independent",
"""Calling any simulation, convolution, geometry, acoustics or metadata function never modifies its arguments, never reads or advances global random state, and returns the
same values (bit for bit on CPU) no matter which other calls, dtypes, kernel settings, grad/inference modes or mutations of previously returned results came before it.
Returned tensors do not alias internal caches or each other across calls.""",
["histories", "inputs"], "All call histories: interleavings of settings, dtypes, modes and in-place edits of returned tensors.",
"Each test is a short fresh history; cache-key collisions, cache poisoning through returned tensors and mode leakage only appear in longer ones.",
["sim/ism/accumulate.py", "sim/ism/api.py", "signal/dynamic.py", "signal/static.py", "io/metadata.py", "geometry/arrays.py"],
[("module-level kernel caches", "sim/ism/accumulate.py:_SINC_LUT_CACHE")],
["return values across a history, argument bytes, RNG states"],
[dict(name="kernel caches", meaning="per (length, granularity, device, dtype) lookup tables", where=S + "sim/ism/accumulate.py")])

prop("C10", "Concurrent use from threads gives the serial results",
"""Simulations, convolutions and corpus-free utilities called at the same time from several threads, with equal or different configurations and from a cold start,
each return exactly what they return when called alone, and no call fails because of another.""",
["schedules"], "All interleavings of concurrent calls with mixed dtypes, kernel lengths, LUT settings, seeds.",
"No test runs two threads; module-level caches and shared state are only exercised serially.",
["sim/ism/accumulate.py", "sim/ism/api.py", "sim/ism/diffuse.py", "signal/dynamic.py", "config.py"],
[("check-then-insert caches with whole-value publication", "sim/ism/accumulate.py:_get_sinc_lut")],
["values returned to each thread"],
[dict(name="kernel caches", meaning="shared between threads", where=S + "sim/ism/accumulate.py")])

prop("C11", "ISMSimulator is a faithful front for every kind of scene",
"""ISMSimulator.simulate gives exactly the RIRs of simulate_rir (StaticScene) or simulate_dynamic_rir (DynamicScene) for the scene's room, positions or trajectories, the orientations stored in its
sources and mics, and the simulator's own parameters; a deprecated Scene behaves as its static/dynamic equivalent and warns. The result carries the scene, the
configuration and seed actually used. A max_order or tmax that disagrees with the configuration, or invalid simulator parameters, raise ValueError, and unknown scene types raise TypeError.""",
["inputs", "configurations"], "All scene kinds x simulator parameters x configurations.",
"Tests run two scenes with default parameters; forwarding of each parameter and of orientations for each scene kind is not settled.",
["sim/simulators.py", "models/scene.py", "models/results.py"],
[("dispatch", "sim/simulators.py:ISMSimulator.simulate")],
["RIRResult fields"])

prop("C12", "Arguments, configuration and defaults resolve with one precedence",
"""For every simulation parameter an explicit argument wins over the SimulationConfig value, which wins over the built-in default (max_order, tmax, directivity, device), and nsample wins over tmax;
missing max_order or missing nsample and tmax raise ValueError.
SimulationConfig.validate (also run by replace and by every simulation) rejects every out-of-range field with ValueError and accepts every in-range one, config objects are never
modified, and replace changes exactly the named fields.""",
["configurations"], "All subsets of arguments/config fields set, all in-range and out-of-range field values.",
"Precedence is a product of presence/absence combinations the tests sample twice.",
["config.py", "sim/ism/validate.py", "sim/ism/api.py"],
[("resolution", "sim/ism/validate.py:_resolve_config"), ("validation", "config.py:SimulationConfig.validate")],
["return values / exceptions of simulate_* and SimulationConfig"])

prop("C13", "Rooms, entities and scenes accept exactly the valid inputs",
"""Room, Source, MicrophoneArray, StaticScene, DynamicScene and Scene raise ValueError/TypeError for every invalid description (room size not 2 or 3 finite positive numbers; fs or c not finite and positive; t60 NaN or not positive;
both beta and t60; beta of wrong count, non-finite or outside [0,1]; positions of wrong shape or non-finite; orientation of wrong shape or non-finite; mismatched dimensions,
trajectory shape, entity count or step count) and accept every valid one, storing values equal to those given.
replace() gives a new validated object with only the named fields changed, and the original is untouched.""",
["inputs"], "All combinations of valid and single-fault invalid descriptions.",
"Each test tries one bad value; the fault x field x dimension grid, boundary values and replace histories are open.",
["models/room.py", "models/scene.py"],
[("room validation", "models/room.py:Room.__post_init__"), ("entity validation", "models/room.py:_validate_orientation"), ("scene validation", "models/scene.py:_validate_traj")],
["constructors: value or exception"])

prop("C14", "Acoustic formulas follow Sabine and invert each other",
"""estimate_beta_from_t60 returns equal wall coefficients sqrt(1 - alpha) with alpha = 0.161 V/(t60 S) limited to [0, 0.999], and estimate_t60_from_beta returns 0.161 V / sum(S_i (1-beta_i^2)) with beta in
low/high-wall-per-axis order (infinite if nothing absorbs); they invert each other wherever alpha is not limited, for 2-D rooms (unit height, side walls only) and 3-D rooms alike.
attenuation_db_to_time_sabine is att_db/60*t60 and estimate_image_counts_from_tmax is ceil(tmax*c/size) per axis.
Non-positive arguments and wrong coefficient counts raise ValueError; integer inputs give the same numbers as floating ones.""",
["inputs"], "All room sizes, T60s, coefficient vectors, dtypes.",
"Tests check one or two points of each formula.",
["util/acoustics.py"],
[("formulas", "util/acoustics.py")],
["torchrir.util return values"])

prop("C15", "Static convolution is linear convolution summed over sources",
"""fft_convolve and convolve_rir equal direct linear convolution: output for mic m is the sum over sources s of signal s convolved with rirs[s, m], of length n + rir_len - 1, with no wrap-around,
for all accepted signal/RIR shapes (a single signal is shared by all sources; one mic gives a 1-D result). Source-count mismatches and unsupported ranks raise ValueError, and inputs are never modified.""",
["inputs"], "All lengths (including 1, powers of two and off-by-one), source/mic counts, shapes, dtypes.",
"Tests convolve two tiny signals; FFT length selection and broadcasting are only wrong at particular sizes.",
["signal/static.py", "signal/internal.py"],
[("FFT size", "signal/static.py:fft_convolve")],
["convolve_rir / fft_convolve return values"])

prop("C16", "Dynamic convolution applies each RIR to exactly its own signal segment",
"""DynamicConvolver equals the sum over time steps and sources of (the samples belonging to that step) convolved with that step's RIR, added at the segment's start: in trajectory mode step t owns samples
floor(t*N/T) up to the next start (or floor(timestamp*fs) when timestamps are given), the output has N + rir_len - 1 samples and every input sample is used exactly once; in hop mode step t owns
samples [t*hop, (t+1)*hop). Constant RIRs therefore reproduce static convolution, silent or empty segments contribute nothing, and the accelerator (batched) implementation computes the same as the CPU one.
Invalid mode, missing hop or fs, bad timestamps, ambiguous or mismatched shapes and source counts raise ValueError.""",
["inputs", "configurations"], "All T, N, hop, timestamps, source/mic counts and lengths.",
"Tests use constant RIRs or a single small case; segment boundaries for N not divisible by T, T > N, uneven timestamps and the batched path are open.",
["signal/dynamic.py", "signal/internal.py"],
[("segment boundaries", "signal/dynamic.py:_convolve_dynamic_rir_trajectory"), ("overlap-add", "signal/dynamic.py:_convolve_dynamic_rir_hop")],
["DynamicConvolver.convolve return value or exception"])

prop("C17", "Array builders produce exactly the geometry they name",
"""Every microphone-array builder returns the promised number of positions, centred on the given centre: linear arrays equally spaced by spacing along the axis/direction, binaural two mics offset +-offset along x,
circular arrays at equal angles and exact radius in the requested plane or perpendicular to the normal (any non-zero normal), polyhedra with all vertices at the radius and equal edges,
Eigenmikes on the sphere with the published 32/64 directions rotated by the azimuth offset. Geometry is independent of the centre (pure translation), scales with radius/spacing,
directions and normals count by where they point, whatever their length; the geometry is the same for lists, integer and float inputs and dtypes up to rounding;
invalid counts, sizes, axes, planes, kinds or dimensions and zero or non-finite directions and normals raise ValueError.""",
["inputs"], "All centres, counts, radii, directions, normals, planes, kinds, dtypes, 2-D and 3-D.",
"Tests check radius for one centre; directions, degenerate normals, integer centres and pairwise geometry are unsampled.",
["geometry/arrays.py"],
[("builders", "geometry/arrays.py")],
["torchrir.geometry array builders"])

prop("C18", "Sampling stays in bounds and is driven only by the given generator",
"""Position samplers return exactly num points inside the room shrunk by margin, within the z range where it is feasible, and at least min_distance from the centre when asked (raising RuntimeError if not achievable within max_attempts);
their output covers the whole allowed region and depends only on the arguments and the passed random generator, never on global random state.
clamp_positions moves each coordinate to the nearest value within [margin, size - margin] and leaves points already inside unchanged;
linear_trajectory has exactly steps points, starts at start, ends at end, is equally spaced, and one step is just the start.""",
["inputs", "histories"], "All rooms, margins, ranges, distances, seeds; all start/end/steps.",
"Random outputs: a test sees a few seeds; boundary-violating draws and global-RNG coupling are rare or invisible there.",
["geometry/sampling.py", "geometry/trajectories.py"],
[("rejection sampling", "geometry/sampling.py:sample_positions_min_distance"), ("clamp", "geometry/sampling.py:clamp_positions")],
["torchrir.geometry return values"])

prop("C19", "Audio files round-trip without loss beyond the sample format",
"""Saving then loading audio returns the same frames, channel count, sample rate and format, with error at most the quantisation of the chosen subtype: 1-D audio is mono, 2-D audio is (channels, frames), or (frames, channels) when the first axis is
longer than the second and over 8, loading multichannel files yields channel 0 with a warning. With normalize=True the file is the input scaled so its largest magnitude is peak (silence stays silence); with
normalize=False samples are written unscaled, also out-of-range ones in a wav without an explicit subtype. Wav-only entry points reject other formats, unknown backends are rejected, info reports what was written, AudioData round trips keep the stored subtype, and the input tensor is never modified.""",
["inputs", "configurations"], "All shapes, channel counts, subtypes, formats, peaks, amplitudes, sample rates, entry points.",
"Tests save one mono/stereo file; channel layout inference, peak scaling and each of the many entry points are unsampled.",
["io/audio.py", "io/__init__.py", "io/outputs.py"],
[("layout and normalisation", "io/audio.py:_save_audio"), ("format gate", "io/__init__.py:_normalize_format")],
["files read back with an independent reader"])

prop("C20", "Scene metadata and attribution state exactly what was simulated",
"""build_metadata/save_scene_metadata report the room, positions, orientations, trajectories, RIR shape, sample rate, time axis, timestamps, array centre and minimum spacing exactly as given,
with azimuth/elevation of each source seen from each mic at each time step equal to atan2 of the world-frame difference vector; dynamic is true exactly when there is more than one time step.
With JSON-serialisable extras the result always survives a JSON write/read unchanged. Attribution files contain every required field, the subset and every modification note; missing fields raise ValueError.""",
["inputs"], "All rooms, arrays (1 to 64 mics), static/dynamic/mixed trajectories, extras, datasets.",
"Tests check the presence of keys for one scene; numeric content for large arrays and mixed trajectories is unsampled.",
["io/metadata.py", "io/outputs.py", "datasets/attribution.py"],
[("metadata", "io/metadata.py:build_metadata"), ("attribution", "io/outputs.py:save_attribution_file")],
["returned dict and file contents"])

prop("C21", "Archive extraction never escapes the destination",
"""Whatever a dataset archive contains (absolute paths, .. components, symlinks or hard links to anywhere, devices and FIFOs, member order and chains of links, odd names), extracting it never creates, changes, or removes anything outside
the destination directory: a hostile archive is rejected with an error instead.
Any link is reason enough to reject an archive; archives of regular files and directories that stay inside extract completely with identical content.""",
["inputs", "fault_sequences"], "All archives: member names, types, link chains, orders.",
"Tests try one traversal name and one link; combinations (link then file through it, prefix-sibling directory, absolute links) are unsampled.",
["datasets/_archive.py", "datasets/cmu_arctic.py", "datasets/librispeech.py"],
[("safe extraction", "datasets/_archive.py:safe_extractall")],
["file-system snapshot outside the destination; extracted tree"])

prop("C22", "Corpus download survives faults: never a half dataset taken as whole",
"""With download=False nothing touches the network or writes to disk, and a missing corpus is a clear error. With download=True, after a network error, truncated transfer, corrupt or hostile archive, disk-full, or a kill at any point,
a later attempt with a healthy network ends with the complete corpus (a hostile archive stays rejected until it is removed), and no attempt ever presents a partial archive or partial extraction as the dataset. A single failed transfer is retried within the same attempt. An already complete corpus is never downloaded or extracted again.""",
["crash_points", "fault_sequences", "histories"], "All fault kinds at all points of download and extraction, then retries.",
"Tests never touch the download path beyond a safety check; crash points cannot be sampled by an in-process unit test.",
["datasets/cmu_arctic.py", "datasets/librispeech.py", "datasets/utils.py", "datasets/_archive.py"],
[("download to temporary then rename", "datasets/cmu_arctic.py"), ("extraction completeness", "datasets/librispeech.py")],
["loopback HTTP server log, audit events, on-disk tree after crash and retry"])

prop("C23", "Corpus loaders report exactly what is on disk, in a stable order",
"""CmuArcticDataset and LibriSpeechDataset list exactly the utterances present (audio file together with its transcript), with the right text, speaker and path, in an order that does not depend on the file system or process,
and load_audio/indexing returns the samples and sample rate of that utterance's own file. len and iteration agree; unknown speakers or subsets and ill-formed utterance ids raise ValueError, a missing corpus or speaker FileNotFoundError, and reading never changes the corpus.""",
["inputs", "configurations"], "All corpus trees: speakers, chapters, missing/extra files, odd transcript lines, file creation orders.",
"Tests build one tiny fake tree; directory order, missing partners and quoting variants are unsampled.",
["datasets/cmu_arctic.py", "datasets/librispeech.py", "datasets/base.py"],
[("transcript parse", "datasets/cmu_arctic.py"), ("tree walk", "datasets/librispeech.py")],
["dataset API over generated corpora"])

prop("C24", "Batching and source mixing keep every sample where it belongs",
"""collate_dataset_items pads each item with pad_value (default zero) to the batch maximum, reports the true lengths, keeps order, sample rate, text and speakers, and loses or mixes no sample.
load_dataset_sources picks num_sources distinct speakers, concatenates that speaker's utterances (each used before any is repeated) up to exactly the requested duration (the whole samples in it), reports exactly the utterances used, and is a
function of its dataset arguments and the given random generator only; inconsistent sample rates, more sources than speakers and corpora without audio raise errors.""",
["inputs", "histories"], "All batch compositions, durations, generators, corpus contents.",
"Tests use one two-item batch and one fake dataset.",
["datasets/collate.py", "datasets/utils.py", "datasets/base.py"],
[("padding", "datasets/collate.py:collate_dataset"), ("selection", "datasets/utils.py:load_dataset_sources")],
["returned batch / sources"])

prop("C25", "Every generated dataset scene is internally consistent",
"""For every scene the dynamic CMU ARCTIC builder writes, the mixture equals the sum of the per-source reverberant files it saved (to sample-format rounding, unclipped), all files share sample rate and length,
each source file is the utterances named for it convolved with the RIRs of the stated room and trajectories (one common scale), and the metadata
describes that scene: sources, distinct speakers, room, microphones, source trajectories inside the room margin, the moving/static sources with speeds in the requested range and the motion profile asked for, evenly spaced azimuths, timestamps.
The number of scenes, their naming, and the requested options (n_sources, moving speed ranges, mic geometry, RT60, duration) are honoured exactly; invalid or infeasible requests are rejected before anything is written, and the command line builds the same dataset as the function.""",
["inputs", "configurations"], "All builder configurations and seeds.",
"Tests build one or two scenes and check file names; numeric consistency between wavs and metadata is not checked at all.",
["datasets/dynamic_cmu_arctic.py"],
[("scene build", "datasets/dynamic_cmu_arctic.py")],
["generated files and metadata"])

prop("C26", "Dataset generation is reproducible, isolated and overwrite-safe",
"""The same seed and options give byte-identical scene audio and metadata whatever else the process did before (other random state, earlier builds, output location), and different seeds give different scenes.
Without overwrite an existing dataset is never touched; with overwrite nothing of the old dataset remains in the new, and a request rejected as invalid leaves the old dataset intact. Files outside the output directory are never modified or removed, and global random state is not disturbed.""",
["histories", "configurations", "fault_sequences"], "All histories of builds, overwrites and rejected requests.",
"Tests compare one seed once; failure-then-state and process-history independence are not exercised.",
["datasets/dynamic_cmu_arctic.py"],
[("seeded generators", "datasets/dynamic_cmu_arctic.py"), ("overwrite handling", "datasets/dynamic_cmu_arctic.py")],
["output trees across histories"])

prop("C27", "Plots and animations draw the scene they are given",
"""plot_scene_static/plot_scene_dynamic and the scene animations draw the room box, every source and every microphone at its actual coordinates (2-D and 3-D), every step-th point of each moving trajectory, one label per source when asked, and the given annotations and title.
Frame i of an animation shows step min(i*step, T-1) with the trails up to it, there are ceil(T/step) frames, and the frame rate is the requested one or follows from the duration, rounded and at least 1. render_scene_plots and the save_scene_* helpers write exactly the promised files for the views asked for,
muxed audio is the requested pair of mixture channels; invalid shapes raise ValueError, and inputs are not modified.""",
["inputs", "configurations"], "All scenes, dimensions, trajectory lengths, steps and option combinations.",
"Tests check that files exist for one scene; drawn data is not inspected.",
["viz/scene.py", "viz/animation.py", "viz/io.py", "viz/utils.py"],
[("drawing", "viz/scene.py"), ("frame update", "viz/animation.py")],
["matplotlib artist data, output files"])

prop("C28", "Visualisation leaves nothing behind and never breaks the run",
"""No exporting call (render_scene_plots, animate_*, save_scene_*) leaves a matplotlib figure open or a temporary or unpromised file on disk, whether it succeeds or fails at any point (encoder missing, encoder error, disk error, drawing error, bad input), and a plot_scene_* call that raises leaves no figure of its own; the user's own figures and the mixture file are untouched.
The save_scene_* helpers contain failures: no exception escapes, a warning is logged, and only files that exist are reported as saved. A failed audio mux leaves the silent video intact and is reported by a warning; no window is shown unless asked. The default matplotlib style is applied at most once per process, so later settings of the user stay.""",
["fault_sequences", "histories"], "All failure points of rendering, encoding, muxing; repeated calls.",
"Tests only run the success path; leaks accumulate invisibly over one call.",
["viz/io.py", "viz/animation.py", "viz/utils.py", "viz/scene.py"],
[("figure closing", "viz/utils.py"), ("mux", "viz/animation.py")],
["open figures, temp directory, rcParams, output files after injected faults"])

prop("C29", "Logging emits each record once at the configured level",
"""After any sequence of setup_logging/get_logger calls, each record logged through a torchrir logger at or above the most recently configured level is emitted exactly once by torchrir's handler in the most recently
configured format, records below it are not, and propagation follows the last configuration. get_logger always returns a logger under the torchrir namespace,
unknown level names raise ValueError (non-string/int levels TypeError), and importing torchrir alone installs no handlers.""",
["histories", "inputs"], "All sequences of (re)configuration, names, levels.",
"Tests configure once; duplicates and stale levels only appear after repeated configuration.",
["logging.py"],
[("handler installation", "logging.py:setup_logging")],
["captured stream output"])

prop("C30", "Devices and dtypes resolve predictably with safe fallback",
"""resolve_device maps None/'cpu' to CPU, returns torch.device objects as given, picks the first available backend in preference order for 'auto', and falls back to CPU with a RuntimeWarning when the named accelerator is unavailable, in any letter case (cuda:N and mps:N included); unknown names raise.
DeviceSpec.resolve and infer_device_dtype let an explicit device or dtype win, else (device None or 'auto') take it from the first tensor argument, else the default: CPU, or the 'auto' choice, and float32. Simulations requested on an unavailable accelerator run on CPU and give the CPU result.""",
["configurations", "inputs"], "All device strings, backend availability combinations, preference orders, tensor argument lists.",
"The test machine has one availability combination; others are only reachable by simulating availability.",
["util/device.py", "util/tensor.py"],
[("resolution", "util/device.py:resolve_device")],
["return values and warnings"])

prop("C31", "The public surface is stable and deprecated names keep working",
"""Every documented public name can be imported from its documented module, lazily or directly, in any order and from a fresh process; each deprecated entry point (torchrir.load/save, io.load/save/info, Scene) gives exactly the result of its replacement, errors included,
plus one DeprecationWarning pointing at the caller, and the experimental placeholders fail loudly rather than returning data. Importing torchrir has no side effects: no files, no network, no handlers, no random state, default dtype or thread settings changed.""",
["histories", "programs"], "All names, import orders, fresh processes.",
"Tests import everything into one process in one order.",
["__init__.py", "io/__init__.py", "datasets/__init__.py", "viz/__init__.py", "experimental/simulators.py", "models/scene.py"],
[("re-exports", "__init__.py"), ("deprecation shims", "io/__init__.py")],
["fresh-process imports, warnings, audit events"])

prop("C32", "The example programs deliver what their command line and metadata say",
"""Every example program, for every command line it accepts, writes exactly the promised files (mixture, per-source references, metadata, attribution, pictures when asked). Each scene's audio, saved at full scale, is the named dry utterances sent through the static
RIR of the stated room and positions at each step's own signal segment; the stated geometry keeps every entity inside the room, the array's spacing, at least 1.5 m between the array and a source's start, and moves exactly the sources (or the array) asked for. The same command repeats its output byte for
byte in any process, asking for more scenes leaves the first ones unchanged, and a run from a saved JSON/YAML configuration equals the same options given directly, with command-line options winning. A present corpus is never changed and needs no network; a missing one with downloads off is FileNotFoundError and no output.""",
["programs", "inputs", "histories"], "All example programs, command lines, corpora, configuration files.",
"No test runs an example program: only the pieces are tested, each with its own fixed inputs.",
["examples/cli.py", "examples/static.py", "examples/dynamic_src.py", "examples/dynamic_mic.py", "examples/build_dynamic_dataset.py", "examples/getting_started.py", "util/cli.py", "datasets/utils.py", "io/outputs.py", "io/metadata.py"],
[("output options", "util/cli.py:add_output_args"), ("dry signals", "datasets/utils.py:load_dataset_sources"), ("scene files", "io/outputs.py:save_scene_audio"), ("pictures", "viz/scene.py:save_scene_plots")],
["files written by the programs"])

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
