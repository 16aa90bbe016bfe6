"""notes per property for DESIGN.md: how it is decided"""
HOW = {
'P01': 'Every class of tprocess/process that maps blocks to blocks is run twice on the same symbolic signal: once with one block, once with every block size in range; '
       'the concatenations must be equal entry by entry (normal form), block lengths and announced sizes must fit. No formula of the classes is needed.',
'P02': 'Oracle: Python slicing of the symbolic recording. start, stop, invalid channels, block size and the order of setting them are explored; MaskedTimeOut, MaskedTimeSamples, Calib.',
'P03': 'The consumer is a loop over SamplesBuffer.result that sets another step width before every block (explored choice); window content is compared with the symbolic signal.',
'P04': 'Each step, the next consumer to pull is an explored choice, so all pull orders are covered. For threads, locks/deques/source access are scheduler stand-ins with a switch point before '
       'each; all interleavings of two consumers and two blocks are explored.',
'P05': 'h5cache/h5files run against an in-memory HDF5 model; every operation may be the last one of the process (explored), the next process starts with what is in the file. '
       'Whatever was read must equal the symbolic source data.',
'P06': 'A recording in memory must have identical entries after a run; a source that overwrites its last block with unconstrained fresh symbols shows any use of an expired block; '
       'two interleaved consumers of one recording show aliasing. Mixers are compared with the weighted sum.',
'P07': 'Definitions are written as sums over the symbolic samples (exponential average as its recursion with the constants of IEC 61672).',
'P08': 'Oracle: the convolution sum; both factors symbolic, so the assertion is an identity of bilinear forms over all partitionings.',
'P10': 'Oracle: an explicit DFT sum per block, window and scaling; IRFFT(RFFT(x)) = x; products of spectra.',
'P11': 'Entries compared with the averaged products of the block spectra; Hermitian symmetry; semidefiniteness by showing v^H C v equals a sum of squares for symbolic v.',
'P12': 'freq_range, index range, ind_low/high and the derived fftfreq are set in every order with symbolic limits; oracle: comparisons with the list of lines.',
'P13': 'csm and frequencies of PowerSpectraImport are set in every order on one object, with reads in between, and compared with a new object and with the slices of the symbolic matrix.',
'P14': 'One minimal working configuration for each of 74 classes (table in `props/p14.py`). Each trait that enters the result is changed '
       'to a second value (symbolic where it is a number); the stand-in for the hash keeps its input, so "different results ⇒ different identity" and "same parameters ⇒ same identity, and same result after changing back" '
       'are equalities of structures and symbolic arrays. The exploration is mostly over choices; the solver decides whether results differ.',
'P15': 'A user environment delivers free positive distances; SteeringVector.transfer/steer_vector are compared with the four formulations written out. exp atoms are exact (unit modulus, product rule).',
'P16': 'Both kernel families of fastFuncs against w^H C w, with C an arbitrary Hermitian symbolic matrix; tfastfuncs likewise where used.',
'P17': 'eigenvalues/eigenvectors are free symbols instead of LAPACK output; the formulas of functional, Capon, MUSIC, eigenvalue and orthogonal beamforming are written out.',
'P18': 'calc_psf in all modes and precisions against |h_s^H a_t|^2 from P15; histories of requests over one cache file, with interruption.',
'P19': 'With concrete geometry, maps are linear in the symbolic matrix and DAMAS/CLEAN/CLEAN-SC are piecewise linear/rational; every branch (argmax, projection to >= 0) is forked by the solver. Oracle: the published iteration in '
       'a separate implementation.',
'P20': 'Histories of two accesses (index, slice, synthetic, changed parameters, new object or process, every cache policy, interruption at every write) on a symbolic matrix; oracle: a new calculation.',
'P21': 'The map is a table of free symbols; band and sector sums are written out, band edges symbolic, so each inclusion decision of the code is forked.',
'P22': 'Limits and coordinates symbolic; positions, index(), indices, extents, shape, subgrids and digests are related to each other and to the definition.',
'P23': 'Points symbolic; oracle: inequalities of the outline (polygons: crossing number over the edges), each decision forked.',
'P24': 'apparent_r of each environment against the physical definition (e.g. |g - m - Ma r e| = r for uniform flow, checked as an implicit equation); analytic Jacobians of flow fields against the symbolic derivative of the executed '
       'velocity code (`core.diff`); the right-hand side of the ray equations is captured and compared.',
'P25': 'Positions and factors are symbolic; numbers written to files become tokens that are read back as the same symbols. Orders of settings, in-place edits and reads are explored; oracle: a new object and the selected columns.',
'P26': 'Oracle: sample number of the delayed signal by rounding the exact travel time; each rounding is forked.',
'P27': 'Emission time solved independently to high precision for given trajectories; signal symbolic.',
'P28': 'Sum over microphones of delayed samples written out, with interpolation; all block sizes; CLEAN-T iteration; equal to the one-block run.',
'P30': 'Definition of trigger instants (threshold crossings with hunks) over symbolic samples; angles and trajectories against interpolation through the points.',
}
