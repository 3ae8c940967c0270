prop('C01', 'Block length contract',
     'Reading any block-wise object with a requested block length n >= 1 yields two-dimensional blocks of exactly n rows, '
     'except that the last block may be shorter but never empty, and then ends normally. No block is longer than requested, '
     'no short block precedes another block, and reading never raises for a source with enough samples.',
     ['inputs', 'configurations'],
     'every source, operator and beamformer that is read block-wise, every source length and every block length',
     'Tests read a few objects with one or two block lengths (mostly dividing the length); the contract must hold for every '
     'object, length and block length, including 1, primes and lengths longer than the data.',
     ALLF, [('block loop of result(num)', 'every result() generator of the package'),
            ('num-sample regrouping', A + 'tprocess.py MaskedTimeOut/TimeReverse/Average/TimeConvolve')],
     TV, 'BlockStream.tla explored exhaustively for small constants; >4000 recorded reads of ~100 object configurations validated '
     'against it. Bounded in source lengths and block lengths listed in the evidence.', observe=['result(num)'])
prop('C02', 'Block length independence',
     'The concatenation of the blocks an object delivers does not depend on the block length used for reading. '
     'This holds for stateful objects (filters, averages, convolution, time-domain beamforming) as for stateless ones, '
     'up to floating point rounding; block-by-block deconvolution (time-domain CLEAN) is excepted by definition.',
     ['inputs', 'configurations'],
     'every block-wise object except the time-domain CLEAN family, every pair of block lengths, every source length',
     'Tests pin regression data for one block length; a state that is not carried over a block boundary shows only for the '
     'other block lengths.',
     ALLF, [('state carried across blocks', A + 'tprocess.py filters, averages, TimeConvolve; tbeamform.py delay buffer'),
            ('sample index carried across blocks', A + 'sources.py')],
     TV, 'Reads with ten (thorough: all up to length+3) block lengths are compared row by row with one read; '
     'TLC accepts a trace only if the rows are the abstract output in order.')
prop('C03', 'Advertised metadata is what is delivered',
     'The number of samples and the number of channels (times the number of frequencies for spectra) an object advertises are '
     'integers that equal the rows and columns it delivers, no matter whether they are read before or after the data, and '
     'for every block length.',
     ['inputs', 'configurations'], 'every block-wise object, source length and block length',
     'Tests check advertised sizes for a handful of objects and lengths that divide evenly.',
     ALLF, [('num_samples / num_channels delegation and properties', 'every SamplesGenerator / Generator class')],
     TV, 'Traces carry the advertised numbers; BlockStreamTrace checks them at every block and at the end. Known findings are '
     'listed with the exact deficit.')
prop('C04', 'Reads are repeatable, isolated and leave user data alone',
     'Reading an object again, after abandoning a read, or with a second read interleaved, delivers the same rows as a read of '
     'a fresh object. Blocks already delivered keep their content while reading goes on, and reading neither changes the '
     'arrays the user supplied nor the identity digest of the object.',
     ['schedules', 'histories', 'configurations'],
     'every block-wise object and every schedule of open/read/drop of two readers (objects that own one shared buffer or output '
     'file: one reader at a time)',
     'Tests read an object once and discard the blocks; aliasing, in-place changes of source data and state left behind by an '
     'abandoned read need a history of several reads.',
     ALLF, [('blocks are fresh arrays', 'every result() generator'), ('generator-local state', 'every result() generator')],
     TV + '; schedules generated by TLC are replayed',
     'TLC emits every schedule of two readers up to 6 (8) operations; a sample of them (all objects) is replayed into real '
     'objects and the recording validated.')
prop('C05', 'Masking is slicing, after any history of changes',
     'MaskedTimeOut and MaskedTimeSamples deliver exactly the rows start:stop (Python slice semantics, negative and None values '
     'included) of the valid channels in their original order, and advertise the sizes of that selection, after any history of '
     'changes of start, stop, invalid_channels (assigned or edited in place) and of the data, file or source behind them.',
     ['inputs', 'histories', 'configurations'],
     'every start/stop pair, every set of invalid channels leaving at least one valid, every history of changes and reads',
     'Tests set each trait once after construction; stale caches of the selection, off-by-one errors of blocks at the end of the '
     'selection and unusual slices need histories and odd values.',
     [A + 'tprocess.py', A + 'sources.py'],
     [('MaskedTimeOut.result, num_samples, num_channels, channels', A + 'tprocess.py'),
      ('MaskedTimeSamples.result and _get_num_samples, basename/data load', A + 'sources.py')],
     TV + '; histories of parameter changes generated by TLC are replayed',
     'Masking.tla gives the selection for any history; TLC enumerates all short histories and simulates long ones, which are '
     'replayed into in-memory, file based and chained objects.', observe=['result(num)', 'num_samples', 'num_channels'])
prop('C06', 'Elementary operators compute their defined sequence',
     'Power, reverse, cumulative average, averaging, mixing (sources and channels, weights), calibration, convolution, IIR/FIR filtering and '
     'filter banks, sector integration with clipping, ring rotation, triggering and angle/rpm tracking from trigger pulses deliver '
     'exactly the sequence their definition assigns to the whole input, for every input, length and block length; pass-through '
     'objects (TimeSamples, Cache, file writers, buffer) deliver the input unchanged.',
     ['inputs', 'configurations'], 'every integer valued input signal, number of channels, parameter value and block length',
     'Tests compare with stored regression data for one signal; carried state, tails of convolutions and averages, sign and channel '
     'mix-ups need all lengths and block lengths.',
     [A + 'tprocess.py', A + 'process.py', A + 'sources.py', A + 'calib.py', A + 'tools/utils.py'],
     [('TimePower, TimeReverse, TimeCumAverage, Average, Mixer, ChannelMixer, TimeConvolve, Filter, FilterBank, Trigger, '
       'AngleTracker, SpatialInterpolator', A + 'tprocess.py, process.py'), ('SourceMixer', A + 'sources.py'),
      ('Calib.result', A + 'calib.py'), ('IntegratorSectorTime', A + 'tbeamform.py')],
     TV, 'SampleOps.tla defines every operator in exact integer arithmetic over sequences (its algebraic laws are model checked); '
     'recorded outputs of the real operators for integer data are compared by TLC.')
prop('C07', 'Windows, spectra and sample buffers follow one plan',
     'Window k of a block-wise transform starts at floor(k*block_size/overlap); every full window and nothing else is used; each '
     'spectrum, cross/power spectrum and the cross spectral matrix is that of the rows of the window weighted with the window '
     'function and the documented scaling; num_blocks is the number of averaged windows; the matrix is Hermitian and its '
     'eigenvalues and eigenvectors are its own; IRFFT gives the windows back; a samples buffer delivers blocks of the '
     'configured length and shift.',
     ['inputs', 'configurations'],
     'every signal length, block size, overlap, block length, scaling, precision and buffer geometry',
     'Tests use few lengths that fit the block size; the number of windows and their placement depend on remainders.',
     [A + 'spectra.py', A + 'fprocess.py', A + 'process.py'],
     [('RFFT.result, IRFFT.result, CrossPowerSpectra, AutoPowerSpectra', A + 'fprocess.py'),
      ('PowerSpectra.calc_csm, calc_ev, num_blocks', A + 'spectra.py'), ('SamplesBuffer.result', A + 'process.py')],
     TV, 'Windows.tla places the windows and computes spectra at 0, fs/4 and fs/2 as Gaussian integers; TLC compares the recorded '
     'outputs. Full spectra at other frequencies are only covered through the impulse responses.')
prop('C08', 'Sample splitter delivers every block to every consumer in order',
     'While several consumers read a SampleSplitter, each registered consumer receives the blocks of the source in the order of the '
     'source, each once and none left out (from its first read on, and as long as its buffer does not overflow), whatever the '
     'interleaving of the consuming threads; every consumer ends with the source.',
     ['schedules', 'histories', 'configurations'],
     'every interleaving of the consumer threads, every buffer size and number of blocks',
     'Tests run one uncontrolled schedule of three threads; lost, doubled or swapped blocks need a switch at one particular line.',
     [A + 'process.py'], [('SampleSplitter.result, _fill_block_buffers, _get_source_generator', A + 'process.py')],
     'TLA+ (TLC): thread model checked exhaustively; preemption schedules generated by TLC replayed on real threads; trace validation',
     'SplitterThreads.tla models the threads at the level of the shared accesses; SchedGen enumerates preemption points, a '
     'deterministic scheduler runs them on the real code and ThreadTrace.tla accepts or rejects the recorded deliveries.',
     state=[('block_buffer', 'blocks pulled from the source and not yet delivered, per consumer', A + 'process.py')],
     observe=['result(num)'])
prop('C09', 'Sample splitter buffers overflow by the configured policy',
     'A consumer that lags behind by more than its buffer size has its overflow handled by its policy: error raises for that '
     'consumer, warning warns and drops the oldest blocks, none drops them silently. Other consumers are not affected, registering '
     'and removing objects at any time keeps the others\' buffers, and the individual size and policy of each object is honoured.',
     ['schedules', 'histories', 'configurations'],
     'every sequence of register/remove/open/read/change of size and policy by up to three consumers',
     'Tests cover one overflow for each policy; histories of registrations, removals and changes are not sampled.',
     [A + 'process.py'], [('SampleSplitter.register_object, remove_object, result, buffer_size, buffer_overflow_treatment', A + 'process.py')],
     TV + '; histories generated by TLC are replayed',
     'Splitter.tla is the buffer protocol; TLC enumerates short histories and simulates long ones, replayed into real splitters.',
     observe=['result(num)', 'warnings', 'OSError'])
prop('C10', 'A cache for block-wise data is transparent, effective and crash-safe',
     'Reading through a Cache delivers exactly the rows of its source, for every caching mode, cache directory, HDF5 library, data type '
     'and block length, after any history of complete, abandoned, failed, interrupted and overlapping reads in this and '
     'earlier processes and of changes of the source. A finished copy is used without asking the source; an unfinished copy is never taken for '
     'a finished one; cache files only hold rows of the source; modes none and readonly write nothing.',
     ['histories', 'crash points', 'configurations'],
     'every history of two readers, settings and processes, every interruption between or within blocks',
     'Tests read a cache once per mode in one process; abandoned and overlapping readers, failures and changed settings need histories.',
     [A + 'process.py', A + 'h5cache.py', A + 'h5files.py'],
     [('Cache.result and its generators', A + 'process.py'), ('HDF5Cache.get_cache_file', A + 'h5cache.py'),
      ('append_data, create_extendable_array', A + 'h5files.py')],
     TV + '; histories of several processes generated by TLC are replayed',
     'TimeCache.tla is the contract, TimeCacheMC.tla checks that a cache algorithm keeps it; TLC generates histories, each session is run '
     'in a process of its own (ended normally or killed), and the cache files are inspected in between.',
     state=[('cache file', 'per source digest: rows stored so far, and whether they are all', A + 'process.py')],
     observe=['result(num)', 'cache files', 'reads of the source'])
prop('C11', 'Cached spectra, maps and PSFs equal those computed without a cache',
     'Every csm, eva, eve of power spectra, every beamforming map and every point spread function read through the result cache equals '
     'the one computed without any cache, for each global caching mode, cache directory, HDF5 library and parameter version, after any '
     'history of other objects, accesses in any order, failed or interrupted calculations and earlier processes (ended or killed). What '
     'is stored is not computed again; modes none and readonly write nothing; access never fails because of the cache.',
     ['histories', 'crash points', 'configurations'],
     'every history of up to three objects over sessions, modes, directories and versions with partial accesses and interruptions',
     'Tests compute one map per mode in one process; partial maps, version changes, interrupted calculations and shared cache files need histories.',
     [A + 'fbeamform.py', A + 'spectra.py', A + 'h5cache.py', A + 'h5files.py'],
     [('BeamformerBase._get_filecache, result, LazyBfResult', A + 'fbeamform.py'), ('PointSpreadFunction._get_psf', A + 'fbeamform.py'),
      ('PowerSpectra._get_filecache', A + 'spectra.py'), ('HDF5Cache', A + 'h5cache.py')],
     TV + '; histories of several processes generated by TLC are replayed',
     'ResultCache.tla is the contract per item, ResultCacheMC.tla checks that the cache algorithm keeps it; histories from TLC run in processes of '
     'their own and the values are compared with a fresh computation without cache.',
     state=[('store', 'per directory and version: items known to be stored', A + 'fbeamform.py')],
     observe=['csm/eva/eve', 'result[f]', 'psf', 'cache files'])
prop('C12', 'Equal digests mean equal results, in every process',
     'The digest of a configured object depends on the values of its parameters alone: not on the order of assignments, on earlier values or '
     'results, on the memory or on the process. Two configurations of the same class with the same digest deliver the same results, for every parameter, '
     'including those of the objects it refers to and the elements of its containers. (Parameters that only select a part of a result, and the '
     'samples of HDF5 files beyond their first row, are no part of it.)',
     ['histories', 'configurations', 'inputs'],
     'all parameters of about 105 configured objects, every pair of values and histories of assignments and observations',
     'Tests compare digests of single changes of few parameters; a missing dependency only shows for one parameter of one class, or after a history.',
     [A + 'internal.py', A + 'sources.py', A + 'tprocess.py', A + 'process.py', A + 'fbeamform.py', A + 'tbeamform.py', A + 'grids.py',
      A + 'microphones.py', A + 'environments.py', A + 'signals.py', A + 'spectra.py', A + 'fprocess.py', A + 'calib.py', A + 'trajectory.py'],
     [('digest, ldigest', A + 'internal.py'), ('digest properties of all classes', A + 'base.py')],
     TV + '; histories of assignments generated by TLC are replayed, in two processes',
     'Identity.tla states that digests are a function of the configuration that separates results; IdentityMC.tla enumerates and simulates histories of assignments '
     'and observations that are run on every class of a catalogue, and the recorded observations are validated.',
     state=[('seen', 'observed digests and results per configuration', A + 'internal.py')],
     observe=['digest', 'results'])
prop('C13', 'Results and derived values follow every assignment',
     'Reading results or derived properties after any sequence of assignments and earlier reads gives what a new object with the present '
     'parameter values gives: nothing cached inside the objects is stale, for every parameter of an object, of the objects it refers to and of '
     'elements of its containers.',
     ['histories', 'configurations', 'inputs'],
     'all parameters of about 105 configured objects, histories of assignments and reads in between',
     'A stale cached property needs a read, an assignment to the one parameter whose notification is missing, and another read.',
     [A + 'sources.py', A + 'tprocess.py', A + 'process.py', A + 'fbeamform.py', A + 'tbeamform.py', A + 'grids.py',
      A + 'microphones.py', A + 'environments.py', A + 'signals.py', A + 'spectra.py', A + 'fprocess.py', A + 'trajectory.py'],
     [('cached properties and property_depends_on of all classes', A + 'fbeamform.py'), ('BeamformerBase result reset', A + 'fbeamform.py'),
      ('GeneralFlowEnvironment.idict', A + 'environments.py')],
     TV + '; histories of assignments generated by TLC are replayed',
     'The same specification with results and properties as observations: each observation must equal that of any other history with the same '
     'configuration, among them a newly made object.',
     state=[('seen', 'observed results and properties per configuration', A + 'base.py')],
     observe=['results', 'derived properties'])
prop('C14', 'Microphones hear sources with the right delay and amplitude',
     'What a microphone of a simulated source records at a sample is what the source emitted at the instant whose sound arrives then: for '
     'resting and moving sources (on arbitrary subsonic paths), arbitrary microphone and source positions, start times, and signals longer or '
     'shorter than the recording. The amplitude of a point source is 1/distance (with convective amplification times its factor). Dipoles and '
     'line sources are the sum of their parts, uncorrelated noise sources sum independent signals, and '
     'samples before the first sound arrives are zero. Distances in uniform flow are the acoustic travel distances.',
     ['inputs', 'configurations'],
     'every source and microphone position, path, start time, sampling frequency, signal and flow',
     'Tests compare stored recordings of one geometry; wrong emission times show only for other positions, paths, start times or lengths.',
     [A + 'sources.py', A + 'environments.py', A + 'signals.py', A + 'trajectory.py'],
     [('result of PointSource, MovingPointSource, LineSource, dipoles', A + 'sources.py'), ('Environment._r, UniformFlowEnvironment._r', A + 'environments.py')],
     TV, 'SourceTimes.tla: fronts travelling step by step (model checked against the closed form). Recordings of a constant and of a ramp signal reveal '
     'the emitted sample and the amplitude; TLC checks both against exact integer geometry.', observe=['result(num)'])
prop('C15', 'Time domain delay-and-sum focuses where and when it says',
     'Every output sample of the time domain beamformers is the sum over the microphones of the (interpolated) recording at that sample plus the '
     'travel time from the focus, weighted as the type of steering vector says, for resting foci and foci on a trajectory (also turning with it, '
     'with convective amplification), for any reference position, block length and weighting; squared outputs are its square, with or without the '
     'autospectra of the microphones. Focusing on a source returns its signal at the emission times. One step of CLEAN-T subtracts the damped strongest '
     'signal.',
     ['inputs', 'configurations'],
     'every array, grid, path, steering type, reference, block length and input',
     'Tests compare stored maps for one configuration.',
     [A + 'tbeamform.py', A + 'tfastfuncs.py', A + 'trajectory.py', A + 'fbeamform.py'],
     [('BeamformerTime, BeamformerTimeTraj and squared, CLEAN-T variants', A + 'tbeamform.py'), ('_delayandsum*, _steer_*', A + 'tfastfuncs.py')],
     TV, 'FocusTimes.tla: emitting source, recording microphones and a delaying reader (model checked: output is the signal, causality). Recorded delays '
     'and amplitudes (from one-hot constant and ramp recordings) and outputs are checked by TLC against exact integer geometry.', observe=['result(num)'])
prop('C16', 'Grids and sectors select exactly the points they describe',
     'A grid has as many points as its shape says, in row-major order at the positions that its parameters describe; index and indices of a '
     'position, rectangle, circle or polygon give the grid points there and raise outside. A sector contains exactly the points inside it '
     '(borders as configured, the nearest point if configured and none is inside), unions of sectors contain the points of their parts, and '
     'integrating a map over a sector sums exactly those points.',
     ['inputs', 'configurations'],
     'every grid (2D, 3D, line, merged, imported), sector and map',
     'Tests check few regions on one grid; points on borders, degenerate regions, unions and extents that do not fit the increment are not sampled.',
     [A + 'grids.py', A + 'fbeamform.py'],
     [('RectGrid, RectGrid3D, LineGrid, MergeGrid, ImportGrid', A + 'grids.py'), ('Sector classes', A + 'grids.py'), ('Polygon', A + 'grids.py'),
      ('integrate', A + 'fbeamform.py')],
     TV, 'Regions.tla: exact integer geometry (model checked: crossing number against half planes, invariance). Recorded shapes, positions, indices, '
     'memberships and integrals are checked by TLC.', observe=['pos', 'shape', 'index', 'indices', 'contains', 'subdomain', 'integrate'])
prop('C17', 'Beamforming maps are the quadratic forms they are defined as',
     'Every value of a frequency domain map is the quadratic form of the steering vector of the grid point with the cross spectral matrix at the frequency: '
     'for all four types of steering vectors, every reference, with and without the diagonal (negative values set to zero, '
     'signal loss compensated), for the full matrix, single eigenvalue components, functional, minimum variance and MUSIC '
     'variants, also with own steering vectors. Steering vectors have unit response (inverse, true level) or unit norm (classic, true location); point spread functions '
     'are responses to a unit source. Any row of a result can be read by any index in any order.',
     ['inputs', 'configurations', 'histories'],
     'every geometry, cross spectral matrix, steering type, reference and order of accesses',
     'Tests compare stored maps of one array and data set; optimised kernels for special cases may differ from the definition for others.',
     [A + 'fbeamform.py', A + 'fastFuncs.py', A + 'spectra.py'],
     [('SteeringVector, BeamformerBase, Eig, Functional, Capon, Music', A + 'fbeamform.py'), ('beamformerFreq, calcPointSpreadFunction, calcTransfer', A + 'fastFuncs.py')],
     TV, 'FreqMap.tla computes maps exactly in fractions of Gaussian integers (model checked: unit response, true location, completeness, lazy access). '
     'Recorded values for random geometries with exact phases are checked by TLC to 5 digits.', observe=['result[key]', 'psf', 'transfer', 'steer_vector'])
prop('C18', 'Deconvolution follows its iteration and recovers sources',
     'DAMAS results after n iterations are n damped Gauss-Seidel sweeps, never negative. CLEAN moves, in each iteration, the damped maximum of the rest map with its '
     'point spread function to the clean map, and ends when it makes no more progress. CLEAN-SC finds one coherent source again in each '
     'iteration and removes the damped part of everything coherent with it. Orthogonal beamforming puts each eigenvalue at the maximum of its '
     'map. Non-negative least squares (DAMAS-Plus, CMF) recovers the strengths of sources at grid points whenever they are unique.',
     ['inputs', 'configurations', 'histories'],
     'every geometry, matrix, damping, number of iterations and mode of point spread function calculation',
     'Tests compare stored maps after a fixed number of iterations.',
     [A + 'fbeamform.py', A + 'fastFuncs.py'],
     [('BeamformerDamas, DamasPlus, Clean, Cleansc, Orth, CMF', A + 'fbeamform.py'), ('damasSolverGaussSeidel', A + 'fastFuncs.py')],
     TV, 'Deconv.tla: the iterations as state machines on exact maps (model checked: balance of CLEAN, bounds and fixed points of DAMAS). Recorded results for 1, 2, 3, ... iterations '
     'are checked step by step by TLC.', state=[('rest map', 'dirty map minus what was found', A + 'fbeamform.py')], observe=['result'])
prop('C19', 'Frequency choices and bands select exactly their lines',
     'The range of a spectrum and of the maps made from it is what was set last, by indices or by frequencies, and contains exactly the lines within. '
     'A level for a frequency and band (single line, fractional octave, or an interval) is the sum of the chosen lines of the map whose frequency lies in the '
     'band; integrating a map over a sector and a range or list of bands sums the same lines; a warning is given exactly when no line lies '
     'in the band, or the single line is not the queried one.',
     ['inputs', 'histories', 'configurations'],
     'every history of index and frequency limits, every set of frequencies, every band',
     'Tests query a few bands of one spectrum; limits on the edge of a band, gaps, single lines and mixed setting histories are not sampled.',
     [A + 'spectra.py', A + 'fbeamform.py', A + 'tools/helpers.py'],
     [('PowerSpectra.ind_low, ind_high, freq_range, indices', A + 'spectra.py'), ('synthetic, integrate', A + 'fbeamform.py'),
      ('PowerSpectra.synthetic_ev', A + 'spectra.py'), ('barspectrum, synthetic', A + 'tools/helpers.py')],
     TV, 'Bands.tla: settings as a state machine and fractional octaves in exact integer arithmetic (model checked: bands leave no gaps, thirds make octaves). '
     'Recorded histories of settings, looks and band levels of random spectra are checked by TLC.',
     state=[('limits', 'what was set last: indices or frequencies', A + 'spectra.py')],
     observe=['indices', 'freq_range', 'synthetic', 'integrate', 'synthetic_ev', 'warnings'])
prop('C20', 'Files hold what was written to them',
     'An HDF5 file written while data pass through it, or saved at once, holds the first rows of the data, in order and in the chosen precision: all of '
     'them after a normal end, the configured number if limited, and those that passed if the reading was dropped, stopped by the flag, ended by an error of the '
     'source or by the end of the process. Data pass unchanged. Rate, sizes and metadata are read back as written, with either HDF5 library. Wave files hold the '
     'scaled chosen channels. Exported microphone positions, calibrations, grids and benchmark files are read back exactly.',
     ['histories', 'crash points', 'inputs', 'configurations'],
     'every history of writers and readers of up to three files, every block length, limit and end of writing',
     'Tests write one file once; limits within a block, errors, dropped reads and overwritten files need histories.',
     [A + 'tprocess.py', A + 'sources.py', A + 'h5files.py', A + 'microphones.py', A + 'calib.py', A + 'grids.py', A + 'aiaa/aiaa.py'],
     [('WriteH5.result, save, add_metadata, WriteWAV.save', A + 'tprocess.py'), ('TimeSamples, MaskedTimeSamples from files', A + 'sources.py'),
      ('H5FileTables, H5FileH5py', A + 'h5files.py'), ('MicGeom.export_mpos, import', A + 'microphones.py'),
      ('AIAA benchmark importers', A + 'aiaa/aiaa.py')],
     TV + '; histories generated by TLC are replayed',
     'Files.tla: writers, files and processes (model checked: files are prefixes, complete after normal ends, for all block lengths). TLC generates histories that are run with both '
     'libraries (killed writers in their own process) and all files are read back.',
     state=[('file', 'source and number of rows it holds', A + 'tprocess.py')], observe=['result(num)', 'files', 'metadata'])

prop('C21', 'Sector metrics collect exactly the map around each source',
     'For every grid, source position, radius and result map the metrics evaluator gives each source the sum of the map over the grid points in its sector, whose '
     'radius shrinks to half the distance to the nearest other source if adaptive; a sector without points takes the nearest one if asked for, otherwise it is empty. Without '
     'multiple assignment a point counts for one source only, in order, so that nothing is counted twice. Specific and overall level errors are the differences of the collected '
     'levels to the reference, and the inverse level error relates what was collected anywhere to the whole map. The arrays of the user are not changed and mismatched shapes are refused.',
     ['inputs', 'configurations'],
     'every grid, arrangement of sources, sector size and setting',
     'Tests use one grid with sources at its points; ties, overlapping sectors, sources at one place and empty sectors are not sampled.',
     [A + 'tools/metrics.py', A + 'grids.py'],
     [('MetricEvaluator', A + 'tools/metrics.py'), ('CircSector.contains', A + 'grids.py')],
     TV, 'Metrics.tla: sectors and assignment over exact integer maps (model checked: without multiple assignment no point counts twice, nothing is lost). Recorded evaluations of random '
     'grids, maps and sources are checked by TLC.',
     state=[('points left', 'points of the map that no source has taken', A + 'tools/metrics.py')],
     observe=['sectors', 'level errors', 'ValueError'])
prop('C22', 'Signals have exactly the values of their definition',
     'A sine signal has at sample n the value of its amplitude, frequency and phase; a signal from a recording is the recording, repeated from its start if looped and continued '
     'with zeros otherwise, for any block size; a filtered noise signal fulfils the difference equation of its coefficients, driven by white noise from rest. The '
     'same settings give the same samples again, a seed gives another signal, the amplitude or rms scales the samples, and oversampled signals agree with the signal at its samples.',
     ['inputs', 'configurations', 'histories'],
     'every length, frequency, phase, recording, block size and set of coefficients',
     'Tests compare stored results; lengths shorter than the recording, remainders of blocks and combinations of settings are not sampled.',
     [A + 'signals.py'],
     [('SineGenerator, GenericSignalGenerator, FiltWNoiseGenerator, WNoiseGenerator, PNoiseGenerator', A + 'signals.py')],
     TV, 'Signals.tla: sample by sample definitions in integers (model checked: a looped recording put together from blocks is the looped recording). Recorded signals are checked '
     'by TLC sample by sample.', observe=['signal()', 'usignal()', 'rms'])
prop('C23', 'Paths pass their points; array geometry follows the valid microphones',
     'A trajectory passes every given point at its time and follows the polynomial through its points (degree up to three); its derivatives are those of the path; traj delivers the '
     'times of the interval in steps, with the derivative asked for, for any sub-interval and for points given in any order. Number, positions, centre and aperture of a microphone geometry are those of '
     'the valid microphones and follow each change of positions or invalid channels.',
     ['inputs', 'histories'],
     'every path, interval and step, every array and history of invalid channels',
     'Tests sample one trajectory; derivatives in sub-intervals, two- and three-point paths and histories of invalid channels are not sampled.',
     [A + 'trajectory.py', A + 'microphones.py'],
     [('Trajectory.location, traj, interval', A + 'trajectory.py'), ('MicGeom.pos, num_mics, center, aperture', A + 'microphones.py')],
     TV, 'Paths.tla: polynomials and their derivatives on quarters of seconds, arrays as sets of valid microphones (model checked: derivatives, steps, aperture and centre). Recorded '
     'trajectories and histories of arrays are checked by TLC.',
     state=[('valid', 'microphones that are not invalid', A + 'microphones.py')], observe=['location', 'traj', 'pos', 'center', 'aperture'])
prop('C24', 'Flow fields and their gradients agree; sound travels with moving air',
     'The gradient a flow field reports is the derivative of its velocity everywhere; jets blow along their axis, with the exit velocity in the core, whose width is that of the exit and whose length is the set one, nowhere faster, monotonously slower away '
     'from the axis and at rest outside; rotating flow turns about its origin. In air that moves with constant velocity or turns, the '
     'distances of the ray tracing environment are those of sound carried by the air, for all microphones and points, and follow each change of the flow.',
     ['inputs', 'configurations', 'histories'],
     'every jet, direction, position, rotation and geometry',
     'Tests trace rays in one flow; a wrong sign or component of the gradient only shows in flows and directions that tests do not use.',
     [A + 'environments.py'],
     [('SlotJet.v, OpenJet.v, RotatingFlow.v', A + 'environments.py'), ('GeneralFlowEnvironment._r, get_interpolator', A + 'environments.py')],
     TV, 'Flows.tla: sound in rigidly moving air in closed form and integer arithmetic (model checked: rest, axis, wind), shape and gradients of jets. Recorded velocities, gradients '
     'and ray distances are checked by TLC.', state=[('flow', 'velocity and rotation of the air', A + 'environments.py')],
     observe=['v', '_r', 'rm'])
prop('C25', 'Filters have the response of their band, weighting or time constant',
     'An octave or third octave filter of any order has unit gain in the middle of its band, the power bandwidth of the band and the gain of a Butterworth filter; the zero phase variant has no '
     'delay. A filter bank delivers the bands asked for, one after another, each as the single filter does. A and C weighting follow the standard, Z changes '
     'nothing; exponential averages grow with their time constant. All are linear, treat every channel on its own, follow each change of the settings, and refuse bands that are too high.',
     ['inputs', 'configurations', 'histories'],
     'every band, order, fraction, weighting, rate and history of settings',
     'Tests compare stored outputs of the default settings; wrong bandwidths, corrections or weightings for other orders and fractions are not sampled.',
     [A + 'tprocess.py'],
     [('FiltOctave, FiltFiltOctave, TimeExpAverage, FiltFreqWeight, Filter', A + 'tprocess.py'), ('OctaveFilterBank, FilterBank', A + 'tprocess.py')],
     TV, 'Filters.tla: gains of Butterworth band filters in integer arithmetic, tables of the weightings, an average as a state machine (model checked: symmetry, monotony, order, bounds). '
     'Recorded impulse and step responses are checked by TLC.', state=[('settings', 'band, fraction, order and weighting set last', A + 'tprocess.py')],
     observe=['result(num)', 'bands', 'num_channels', 'ValueError'])
prop('C26', 'Angles and virtual rotation follow the trigger',
     'For a wheel of constant speed, with any number of trigger signals per revolution, direction and start angle, the angle tracker delivers for every sample the angle of the wheel (within a revolution) and its speed, '
     'and the average speed; for a wheel of varying speed the angle is exact at each signal and follows in between; each change of the settings is followed. The interpolators that turn an array virtually deliver what the microphones of a ring would have measured at the places that turn with '
     'the wheel (or with a constant speed): linear interpolation between neighbours, for every kind of interpolation and array exactly the values of the microphones where the places coincide with microphones, '
     'in every orientation of the array and for every block length.',
     ['inputs', 'configurations', 'histories'],
     'every period, count, direction and start angle of the trigger, every array, speed, place, orientation and block length',
     'Tests turn one array in one block; a phase that slips between blocks, wrong factors for several signals per revolution or other orientations are not sampled.',
     [A + 'tprocess.py'],
     [('AngleTracker, Trigger', A + 'tprocess.py'), ('SpatialInterpolatorRotation, SpatialInterpolatorConstantRotation', A + 'tprocess.py')],
     TV, 'Rotation.tla: a wheel with signals and a ring of microphones read at turning places (model checked: regular signals, followed wheel, whole turns, values between neighbours). Recorded angles, speeds and '
     'interpolated signals are checked by TLC.', state=[('wheel', 'signals per revolution, direction and start angle set last', A + 'tprocess.py')],
     observe=['angle', 'rpm', 'average_rpm', 'result(num)'])
