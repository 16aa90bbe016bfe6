"""The properties: one entry per id, turned into properties.jsonl and MANIFEST.json by gen.py."""
P = {}


def prop(pid, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, observe=list(observe), state=list(state))


A = 'acoular/'
prop('P01', 'Streaming time-domain processors do not depend on the block size',
     'Every time-domain processing block delivers the same signal whatever block size it is asked for: concatenating the blocks '
     'gives the same array as one single block. Every block but the last has exactly the requested length, no block is longer, and '
     'the total number of samples and channels is the announced one.',
     ['inputs', 'configurations'], 'all sample values, signal lengths and block sizes',
     'Tests compare a few block sizes on one signal for a few classes; the boundary cases (last block short, length a multiple of the '
     'block size, block longer than signal) interact with internal state per class.',
     [A + 'tprocess.py', A + 'process.py'],
     [('running state carried between blocks', 'tprocess.py: Filter.result, FilterBank.result, TimeCumAverage, TimeExpAverage, FiltFiltOctave'),
      ('regrouping of blocks', 'process.py: Average.result, SamplesBuffer')],
     'Every sample value symbolic; lengths, block sizes within the stated bounds. Filter coefficients are the concrete ones of one design per class.',
     ['result() blocks', 'num_samples', 'num_channels'])
prop('P02', 'Selecting samples and channels or calibrating delivers exactly the selection',
     'A recording with a start sample, a stop sample and a list of invalid channels delivers exactly the samples in that range of exactly '
     'the remaining channels, in order, and announces exactly that many samples and channels. Calibration multiplies every delivered '
     'channel with the factor of that same channel. Changing the selection afterwards takes effect as if it had been set at once.',
     ['inputs', 'configurations', 'histories'], 'all data, start/stop values (also negative or none), channel lists, block sizes and factors',
     'The tests use one recording with a few fixed selections; off-by-one errors depend on the relation between start, stop, length and block size.',
     [A + 'sources.py', A + 'tprocess.py', A + 'calib.py'],
     [('offset arithmetic on blocks', 'tprocess.py: MaskedTimeOut.result'), ('slice of the stored data', 'sources.py: MaskedTimeSamples.result'),
      ('per-channel factors', 'calib.py: Calib.result')],
     'Data and calibration factors symbolic, start/stop/channels/block size chosen symbolically within bounds.',
     ['result() blocks', 'num_samples', 'num_channels'])
prop('P03', 'The sliding sample buffer delivers the requested windows without loss',
     'A consumer of the sample buffer that advances by any sequence of step widths sees, at every step, exactly the window of source '
     'samples starting at its position. No sample is lost, repeated or overwritten while it is still needed, and the end of the '
     'source is reported only once the data is used up.',
     ['inputs', 'histories', 'configurations'], 'all sample values, buffer lengths, source block sizes, step sequences',
     'The unit tests check one buffer length with one source; wrap-around errors need specific ratios of lengths and steps.',
     [A + 'process.py'], [('shift and append', 'process.py: SamplesBuffer.fill_buffer/_write_to_buffer/increase_buffer/read_from_buffer/result')],
     'All ratios of buffer length, source block size and step within bounds.', ['SamplesBuffer.result'])
prop('P04', 'A split stream reaches every consumer completely and in order',
     'Every registered consumer of a split stream receives the blocks of the source in order, without repetition, for every order in which the '
     'consumers pull and also if they run in different threads. A block is dropped only when a bounded buffer is full and the consumer asked '
     'for that treatment; with the error treatment the overflow is reported instead, and only if a block would really be lost.',
     ['schedules', 'inputs'], 'all pull orders and thread interleavings of 2-3 consumers, buffer sizes, treatments',
     'Tests run one fixed order; the outcome depends on the interleaving of pulls and on the point of a thread switch.',
     [A + 'process.py'], [('buffers per consumer', 'process.py: SampleSplitter.result/_fill_block_buffers/_inspect_buffer_levels')],
     'The next consumer to pull, and the points of thread preemption, are symbolic choices; the sample values are symbolic.',
     ['result() blocks per consumer', 'OSError'])
prop('P08', 'Convolution block computes the full linear convolution',
     'The time-domain convolution block delivers, for every channel, the linear convolution of the input with the kernel of that channel '
     '(or the single common kernel), of length input plus kernel minus one, whatever the block size, kernel length and input length.',
     ['inputs', 'configurations'], 'all sample and kernel values, lengths and block sizes',
     'Tests sample random signals of a few lengths; partitioned convolution has distinct cases for every ratio of kernel, block and signal length.',
     [A + 'tprocess.py'], [('uniformly partitioned overlap-save', 'tprocess.py: TimeConvolve.result, _spectral_sum')],
     'The output is a bilinear form in signal and kernel, both fully symbolic.', ['result() blocks', 'num_samples'])
prop('P05', 'Caching never changes what a consumer sees',
     'Reading a signal or a power spectrum through the cache gives the same blocks as reading the source, for every cache policy and '
     'after every history of complete reads, abandoned reads and changed sources. A process that ends at any moment leaves a cache from which later '
     'reads either deliver the right data or recompute it.',
     ['histories', 'crash_points', 'configurations', 'inputs'], 'all read histories, policies and crash points within bounds, all sample values',
     'Tests read twice with one policy; partly filled caches need an abandoned read or a crash between two particular file operations.',
     [A + 'process.py', A + 'h5cache.py', A + 'h5files.py', A + 'spectra.py'],
     [('incomplete cache marker and recomputation', 'process.py: Cache.result/_write_data_to_cache/_get_data_from_incomplete_cache'),
      ('policy for cached results', 'spectra.py: BaseSpectra/PowerSpectra._get_filecache, _handle_dual_calibration'),
      ('cache files per source', 'h5cache.py: HDF5Cache')],
     'The file is an in-memory stand-in with crash points before every operation; replays use PyTables on real files. One reader at a time.',
     ['Cache.result', 'PowerSpectra.csm'], ['cache file nodes'])
prop('P06', 'Processing leaves source data alone and mixers deliver the sum',
     'No processing block changes the data of its source, or relies on a delivered block staying valid after the next one is requested, '
     'and running it again gives the same result. Mixing signals delivers their (weighted) sum over the common length.',
     ['inputs', 'histories', 'configurations'], 'all sample values, weights, lengths and block sizes, interleaved consumers',
     'Tests compare one run of a block with a reference; aliasing shows only with sources that reuse memory or with several consumers of one recording.',
     [A + 'process.py', A + 'tprocess.py', A + 'fprocess.py'],
     [('in-place arithmetic on delivered blocks', 'tprocess.py: Mixer.result; sources.py: SourceMixer.result; TimeReverse.result')],
     'Sources are an in-memory recording and a source that overwrites its previous block with unconstrained values.',
     ['result() blocks', 'TimeSamples.data'])
prop('P07', 'Elementary signal operations deliver their definition',
     'Squaring, running mean, block averages, exponential averages with the standard time constants, time reversal and channel sums deliver '
     'exactly the mathematical definition for every signal. They announce the right length, rate and channel count, and a weight '
     'vector of the wrong length is refused.',
     ['inputs', 'configurations'], 'all sample values and weights, lengths, block sizes, averaging lengths',
     'Tests compare a few random signals; definitions hold for every value and length.',
     [A + 'tprocess.py', A + 'process.py'],
     [('recursions carried over blocks', 'tprocess.py: TimeCumAverage.result, TimeExpAverage.result'), ('block sums', 'process.py: Average.result')],
     'Definitions are written out over symbolic samples.', ['result() blocks', 'num_samples', 'sample_freq'])
prop('P10', 'Block spectra, inverse transform and power spectra are exact',
     'Short-time spectra are the discrete Fourier transforms of the windowed, overlapping blocks with the documented scaling, as many as announced, for any '
     'delivered block size. The inverse transform restores the complete blocks, and auto- and cross-power spectra are the scaled products of the spectra.',
     ['inputs', 'configurations'], 'all sample values, windows, overlaps, scalings, signal lengths and block sizes',
     'Tests compare one random signal for a few settings; window, overlap, scaling, length and block size combine.',
     [A + 'fprocess.py'], [('framing and scaling', 'fprocess.py: RFFT.result'), ('irfft of delivered frames', 'fprocess.py: IRFFT.result'),
                          ('kernels', 'fprocess.py: AutoPowerSpectra, CrossPowerSpectra')],
     'The oracle is an explicit discrete Fourier sum; the FFT routine itself is taken as exact.',
     ['result() blocks', 'num_samples', 'freqs'])
prop('P11', 'The cross-spectral matrix is the average of the block outer products',
     'The cross-spectral matrix of a recording is the average over its blocks of the outer products of the windowed, scaled block spectra. It is Hermitian and '
     'positive semidefinite, scales with the square of the signal, permutes with the channels, and equals the one of the step-wise route; '
     'after any change of settings it is the one of a new object.',
     ['inputs', 'configurations', 'histories'], 'all signals, windows, overlaps, block lengths and change sequences within bounds',
     'All tests of it need a data file that is not shipped or pin one synthetic number; positive definiteness is a claim about every signal and vector.',
     [A + 'spectra.py', A + 'fastFuncs.py'],
     [('accumulation of blocks', 'spectra.py: PowerSpectra.calc_csm'), ('outer product kernel', 'fastFuncs.py: calcCSM')],
     'Semidefiniteness by rewriting the quadratic form to a sum of squares. Normalisation for an incomplete last block is a known finding.',
     ['PowerSpectra.csm'])
prop('P12', 'Frequency range selection by index and by frequency is consistent',
     'The selected frequency lines are exactly those in the given index range or the given frequency range, whatever was selected '
     'before and read in between. The reported range, indices and frequencies agree with each other, also after the block size or sampling rate changes.',
     ['inputs', 'histories', 'configurations'], 'all limits, settings histories and block sizes within bounds',
     'Tests set one range once; mixed histories of index and frequency settings are not covered.',
     [A + 'spectra.py'], [('two representations of one range', 'spectra.py: PowerSpectra._get/_set_ind_low, _ind_high, freq_range')],
     'Limits symbolic reals; histories enumerated by symbolic choices.', ['PowerSpectra.indices', 'PowerSpectra.freq_range'])
prop('P15', 'Transfer functions and steering vectors follow their definitions',
     'For every geometry, frequency and sound speed the transfer vector holds the level and phase relative to the reference, and each steering vector type has its '
     'documented formula and normalisation. Selecting grid points, changing parameters or computing the vector in user code gives the same '
     'vectors as a new object.',
     ['inputs', 'configurations', 'histories'], 'all positive distances, frequencies, sound speeds, references and grid selections within bounds',
     'Tests compare one array and a few frequencies with stored numbers; a wrong normalisation for an unusual reference or selection is not seen.',
     [A + 'fbeamform.py', A + 'fastFuncs.py'],
     [('transfer kernel', 'fastFuncs.py: calcTransfer'), ('vector types', 'fbeamform.py: SteeringVector.steer_vector'),
      ('cached distances', 'fbeamform.py: SteeringVector._get_rm, _get_r0')],
     'Distances are free positive symbols given by a stub environment; phases are exact atoms.', ['SteeringVector.transfer', 'SteeringVector.steer_vector'])
prop('P16', 'The beamforming map is the quadratic form of steering vectors and matrix',
     'For every cross-spectral matrix and geometry the conventional map is the steering-vector quadratic form, with diagonal removal and loss normalisation '
     'as documented and the same for built-in and custom steering vectors. It is linear and nonnegative where it must be, and a calibrated source '
     'shows its level at its own position.',
     ['inputs', 'configurations', 'histories'], 'all Hermitian matrices and geometries within bounds',
     'The beamformer tests need a data file that is not shipped, and compare stored numbers for one geometry.',
     [A + 'fbeamform.py', A + 'fastFuncs.py'],
     [('kernels', 'fastFuncs.py: beamformerFreq and its variants'), ('normalisation', 'fbeamform.py: BeamformerBase._calc, sig_loss_norm')],
     'Both kernel families (built in, custom) are checked against one quadratic form.', ['BeamformerBase.result'])
prop('P17', 'Eigenvalue, functional, Capon, MUSIC and orthogonal maps follow their formulas',
     'For every matrix and geometry the maps of the eigenvalue, functional, Capon, MUSIC and orthogonal beamformers follow from the given eigendecomposition '
     'or inverse by their documented formulas. The eigenvalue components add up to the conventional map, component numbers count from '
     'either end, and orthogonal beamforming puts each eigenvalue at the maximum of its map.',
     ['inputs', 'configurations', 'histories'], 'all eigenvalues, eigenvectors, component numbers and geometries within bounds',
     'The tests need a data file that is not shipped; selection of components by negative numbers and repeated calculation are not sampled.',
     [A + 'fbeamform.py', A + 'fastFuncs.py'],
     [('component selection', 'fbeamform.py: BeamformerEig._get_na, _calc'), ('exponent', 'fbeamform.py: BeamformerFunctional._calc'),
      ('signal and noise subspace', 'fbeamform.py: BeamformerMusic._calc'), ('maximum of each component', 'fbeamform.py: BeamformerOrth._calc')],
     'The eigendecomposition is an arbitrary symbolic one; the LAPACK routine is outside.', ['result'])
prop('P18', 'Point spread functions are the maps of unit sources',
     'Column s of the point spread function is the conventional map of a unit source at grid point s, for every steering vector type, calculation mode, '
     'selection of grid points and custom steering vectors. Cached and repeated requests, changed parameters, close frequencies and interrupted calculations '
     'give the same columns as a new object.',
     ['inputs', 'configurations', 'histories', 'crash_points'], 'all distances, selections and request histories within bounds',
     'Tests compare one grid with stored numbers; modes, selections and cached histories combine.',
     [A + 'fbeamform.py', A + 'fastFuncs.py', A + 'h5cache.py'],
     [('marking of calculated points', 'fbeamform.py: PointSpreadFunction._get_psf, calc_psf'), ('cache entry per frequency', 'fbeamform.py: PointSpreadFunction._get_filecache'),
      ('kernels', 'fastFuncs.py: calcPointSpreadFunction')],
     'The oracle is the squared scalar product of the steering and transfer vectors of P15.', ['PointSpreadFunction.psf'])
prop('P19', 'DAMAS, CLEAN and CLEAN-SC perform the documented iterations',
     'For every cross-spectral matrix the deconvolved maps are those of the documented iterations: Gauss-Seidel steps with nonnegative levels for DAMAS, '
     'subtraction of the point spread function at the maximum until the residual stops to decrease for CLEAN. CLEAN-SC starts at the maximum, scales with the '
     'level of the matrix and treats each frequency for itself.',
     ['inputs', 'configurations'], 'all matrices within bounds for given geometries, iteration numbers and damping',
     'The tests need a data file that is not shipped; stopping, clipping and the order of updates depend on the data.',
     [A + 'fbeamform.py', A + 'fastFuncs.py'],
     [('Gauss-Seidel kernel', 'fastFuncs.py: damasSolverGaussSeidel'), ('stop condition', 'fbeamform.py: BeamformerClean._calc'),
      ('matrix update and stop', 'fbeamform.py: BeamformerCleansc._calc')],
     'Geometry concrete, so that maps are linear in the symbolic matrix; tolerance 2e-5 because the code computes phases in single precision.', ['result'])
prop('P20', 'Beamforming results on demand, cached or interrupted equal new results',
     'Whatever frequency lines of a beamforming result are accessed, by index, from the end, by slice or on a kept result, the values are those of a complete '
     'calculation of a new object with the current parameters. This holds for every cache policy and after interrupted calculations, complete results are not calculated '
     'again, and policies without writing leave the cache file alone.',
     ['inputs', 'histories', 'configurations', 'crash_points'], 'all histories of two accesses with changes, restarts or interruptions in between, within bounds',
     'Tests compute one complete result per object; on-demand access, stored partial results and changed settings combine.',
     [A + 'fbeamform.py', A + 'h5cache.py'],
     [('marking of calculated lines', 'fbeamform.py: LazyBfResult.__getitem__, BeamformerBase._calc'), ('cached arrays', 'fbeamform.py: BeamformerBase._get_filecache'),
      ('accumulating results', 'fbeamform.py: BeamformerOrth._calc')],
     'Cache file replaced by a model of the HDF5 interface with crash points at every write; matrices symbolic.', ['BeamformerBase.result'])
prop('P21', 'Frequency bands of maps and sector integration are sums of the map',
     'The map for a frequency band is the sum of all lines from the lower to below the upper band limit, so adjacent bands add up to their union. The integral over a sector is the '
     'sum over its grid points for each selected line or band, whether or not the result was accessed before and for every kind of grid.',
     ['inputs', 'histories', 'configurations'], 'all maps, band frequencies, limits and access histories within bounds',
     'Tests use given third-octave bands on one grid; band limits at or between lines and integration before any access are not covered.',
     [A + 'fbeamform.py'],
     [('band limits', 'fbeamform.py: BeamformerBase.synthetic'), ('selection of lines and points', 'fbeamform.py: BeamformerBase.integrate, integrate'),
      ('gridless integration', 'fbeamform.py: BeamformerAdaptiveGrid.integrate')],
     'Values of the map are free symbols given by user classes.', ['BeamformerBase.synthetic', 'integrate'])
prop('P22', 'Grid positions, sizes, indices and identities agree',
     'Positions of every grid run equidistantly over its limits in the documented order and match its size and shape. Index and selection queries return the grid points nearest '
     'to or inside the given coordinates, merged grids hold each point of their subgrids once, and changed grids equal new ones.',
     ['inputs', 'histories', 'configurations'], 'all limits, coordinates and histories of changes within bounds',
     'Tests use a few grids whose increment divides the side length; coordinates between points and changed grids are not sampled.',
     [A + 'grids.py'],
     [('number of points and increment', 'grids.py: RectGrid._get_nxsteps, _get_pos, index'), ('duplicates', 'grids.py: MergeGrid._get_pos, _get_subgrids'),
      ('cached positions', 'grids.py: property_depends_on of Grid classes')],
     'Limits and coordinates symbolic reals, numbers of points found by forking.', ['Grid.pos', 'RectGrid.index', 'RectGrid.indices'])
prop('P23', 'Sectors contain exactly the points inside their outline',
     'A sector contains a point if and only if the point is inside its rectangle, cuboid, circle or polygon, with points on the border as requested. Without any point inside, '
     'the one nearest to the center is returned if requested and none otherwise, and a union contains what one of its parts contains.',
     ['inputs', 'configurations'], 'all coordinates and limits within bounds, for given polygons',
     'Tests use one grid with few sectors; borders, empty sectors and concave outlines are not covered.',
     [A + 'grids.py'],
     [('signed distance to a polygon', 'grids.py: Polygon.is_inside'), ('border and nearest point', 'grids.py: RectSector.contains and others'), ('convex hull', 'grids.py: in_hull')],
     'Points within 0.01 of a border are only considered if exactly on it.', ['Sector.contains', 'Grid.subdomain'])
prop('P26', 'Stationary sources deliver delayed, attenuated signals and exact mixtures',
     'Every microphone receives the signal of a stationary source delayed by the distance over the speed of sound and divided by the distance; dipoles and lines are the '
     'corresponding sums of monopoles, and mixtures are weighted sums. All announced samples are delivered whatever the block size, start times and delays, and the same result again when asked again.',
     ['inputs', 'configurations', 'histories'], 'all signals, distances, start times, block sizes and weights within bounds',
     'Tests compare a few sources with stored snapshots; delays beyond the signal, late starts and block boundaries are not sampled.',
     [A + 'sources.py'],
     [('sample positions', 'sources.py: PointSource.result, PointSourceDipole.result, LineSource.result'), ('own seeds', 'sources.py: UncorrelatedNoiseSource.result'),
      ('sums', 'sources.py: SourceMixer.result')],
     'Signals, weights and monopole distances symbolic.', ['result() blocks', 'num_samples'])
prop('P27', 'Moving sources are heard with the delay of their emission time',
     'A sample received from a moving source was emitted at a time for which emission time plus travel time from the position at that time equals reception time. '
     'It is the source signal at that time divided by the distance at that time, whatever the block size, and with a trajectory at rest it equals the stationary source.',
     ['inputs', 'configurations'], 'all signals, start times and block sizes, for given trajectories and positions',
     'Tests use snapshots of one slow trajectory near the array; fast and distant sources are not sampled.',
     [A + 'sources.py'],
     [('iteration for the emission time', 'sources.py: MovingPointSource.get_emission_time, result'), ('amplitude', 'sources.py: MovingPointSource.get_moving_direction')],
     'Trajectories and geometry concrete, signal and start times symbolic.', ['result() blocks'])
prop('P28', 'Time-domain beamformers follow the delay-and-sum definition in every block',
     'Time-domain beamforming output is, for every grid point and sample, the weighted sum of the interpolated microphone signals at emission time plus travel time, its square, or '
     'the square without autopower. The result is the same for every block size, each started from the same data, for fixed and moving grids, and deconvolution only removes what the sources explain.',
     ['inputs', 'configurations', 'histories'], 'all sample values, delays, block sizes and weights within bounds',
     'Tests use snapshots with one block size; short last blocks, delays longer than a block and ended trajectories are not covered.',
     [A + 'tbeamform.py', A + 'tfastfuncs.py'],
     [('buffering of samples', 'tbeamform.py: BeamformerTime.result, BeamformerTimeTraj.result'), ('interpolation', 'tfastfuncs.py: _delayandsum4, _delayandsum5, _delays')],
     'Compiled kernels are executed as Python code; delays symbolic reals in the definition.', ['result() blocks', 'num_samples'])
prop('P14', 'Objects that compute different results have different identities',
     'The identity (digest) of every signal, grid, microphone, environment and processing object changes whenever a parameter that influences its result changes, and is the same again when the old value is restored. '
     'Two objects of a class with equal identities give equal results, so that caches never serve the result of other parameters.',
     ['inputs', 'histories', 'configurations'], 'every class, one or two changed parameters, all histories of reading and changing within bounds',
     'Tests compute digests but never compare the digests and the results of changed objects.',
     [A + 'internal.py', A + 'tprocess.py', A + 'fbeamform.py', A + 'sources.py', A + 'grids.py', A + 'environments.py', A + 'signals.py'],
     [('identity of all traits', 'internal.py: digest'), ('dependencies of each class', 'depends_on lists of the digest properties')],
     'The hash is a stand-in that keeps its input; equality of identities is equality of the hashed values.', ['obj.digest', 'results of each class'])
prop('P30', 'Trigger instants, rotation angles and trajectories fit the given data',
     'Triggers are exactly the samples (or edges) that pass the threshold, merged within a hunk as documented and independent of internal blocks; the rotation angle at each trigger is the start angle plus whole '
     'trigger periods, and angle and speed are exact at constant speed. A trajectory passes through all given points at their times whatever their order, with consistent derivatives, interval and regular sampling.',
     ['inputs', 'configurations', 'histories'], 'all sample values, trigger positions, speeds and point coordinates within bounds',
     'Trigger and AngleTracker have no tests; trajectories are only used within other classes.',
     [A + 'tprocess.py', A + 'trajectory.py'],
     [('search of triggers', 'tprocess.py: Trigger._get_trigger_data'), ('spline of angles', 'tprocess.py: AngleTracker._to_rpm_and_angle'), ('spline through points', 'trajectory.py: Trajectory.location, traj')],
     'Splines of scipy are replaced by exact interpolation when values are symbolic.', ['Trigger.trigger_data', 'AngleTracker.angle', 'AngleTracker.rpm', 'Trajectory.location'])
prop('P24', 'Sound path lengths and flow fields follow their physical definitions',
     'Without flow the path length is the Euclidean distance; in uniform flow it is sound speed times the time until the wavefront carried by the flow meets the microphone, for any Mach number and direction. Every flow field '
     'gives a velocity of its documented profile and its exact Jacobian, and ray tracing follows the ray equations from each microphone in directions that cover the given solid angle and returns its own travel times for each microphone.',
     ['inputs', 'configurations', 'histories'], 'all positions, Mach numbers below 0.95, flow positions and rays within bounds',
     'Stored results of three flow fields and one environment at a few points are all the tests compare.',
     [A + 'environments.py'],
     [('distances', 'environments.py: dist_mat, Environment._r'), ('uniform flow', 'environments.py: UniformFlowEnvironment._r'),
      ('Jacobians', 'environments.py: OpenJet.v, SlotJet.v, RotatingFlow.v'), ('ray tracing', 'environments.py: GeneralFlowEnvironment.get_interpolator, _r')],
     'Derivatives are formed symbolically from the executed code; integrator and interpolation of scipy are given.', ['env._r', 'FlowField.v'])

prop('P13', 'Imported cross-spectral matrices behave like a matrix measured there',
     'A spectra object fed with a ready-made matrix and its frequencies delivers exactly this matrix, these frequencies, its eigenvalues and '
     'eigenvectors, and the selection of lines of a new object with the same settings, whatever was set or read before and in any order. Its identity '
     'is equal for equal content only, so beamforming maps follow every change. Eigenvalues of bands are sums over the lines in the band, and '
     'matrices of a wrong shape are refused.',
     ['inputs', 'histories', 'configurations'], 'all matrices, orders of settings and reads, band centres',
     'Tests set matrix and frequencies once; outdated values need a read between two settings, or a change between no, one and several frequencies.',
     [A + 'spectra.py', A + 'internal.py'],
     [('cached properties over matrix and frequencies', 'spectra.py: PowerSpectraImport'), ('eigenvalues and bands', 'spectra.py: PowerSpectra.calc_ev, synthetic_ev')],
     'Matrices symbolic, settings explored; the eigenvalue routine has a closed form for two channels.', ['csm', 'eva', 'eve', 'digest', 'indices', 'synthetic_ev'])

prop('P25', 'Array geometry and calibration follow their definition, history and files',
     'An array geometry has exactly the microphones that are not excluded, in their order, with centre and aperture of these microphones, and depends '
     'only on the current settings, however they were set, edited in place or read before. Written geometry files are read back as the same positions with the '
     'same identity, and a new file replaces the old content. Calibration factors are used in the order of the file, also after the file is exchanged.',
     ['inputs', 'histories', 'configurations'], 'all positions, excluded sets, histories of changes and reads, file contents',
     'Tests look at given arrays; outdated values need a read between two changes or an edit of the list of excluded microphones in place.',
     [A + 'microphones.py', A + 'calib.py'],
     [('cached properties', 'microphones.py: MicGeom.pos/center/aperture/digest'), ('import and export', 'microphones.py: import_mpos, export_mpos; calib.py: import_data')],
     'Positions and factors symbolic also through the files; settings explored.', ['pos', 'num_mics', 'center', 'aperture', 'digest', 'Calib.data'])
