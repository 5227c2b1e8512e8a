"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files,
                          'mechanism': [{'name': m, 'where': w} for m, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


FC = 'euphonic/force_constants.py'
p('C01', 'Fourier interpolation reproduces the dynamical matrix of the model',
  '''For any crystal, supercell and short-ranged force constants, the phonon
  frequencies and eigenvectors interpolated at any q-point are the complete
  orthonormal eigensystem, in ascending frequency, of the mass-weighted
  dynamical matrix in which each atom pair's force constants are shared
  equally between its nearest periodic images (ties within 0.1% count as
  equal), each with phase exp(2 pi i q.R), R being the image's cell vector.
  Unstable modes are returned as negative frequencies, and q-points and
  weights come back as given (equal weights if none were).''',
  ['inputs', 'configurations'],
  '''all lattices, supercell matrices (non-diagonal, skewed, negative
  determinant), orderings/choices of cell origins, atom positions, masses,
  force constants, q-points and units''',
  '''tests compare with a few stored CASTEP/Phonopy results for 4 materials;
  no test enumerates image ties, skewed supercells or odd cell origins''',
  [FC, 'c/dyn_mat.c', 'c/_euphonic.c'],
  [('Wigner-Seitz image search', FC), ('cumulant phase sums', FC),
   ('dynamical matrix and diagonalisation in C', 'c/dyn_mat.c')],
  ['ForceConstants.calculate_qpoint_phonon_modes'])

p('C02', 'Every interpolation path and input layout gives the same answer',
  '''The result at each q-point does not depend on the C or Python
  implementation, the number of threads, q-point reduction, the other q-points
  in the call or their order, whether only frequencies are requested, or
  whether mode gradients are also requested. It does not depend either on
  the dtype (integer/float) or memory layout of numerically equal input
  arrays, and the call leaves its input arrays unchanged in value.''',
  ['schedules', 'inputs', 'configurations'],
  '''all interleavings of worker threads over the q-points; all sequences of
  q-points with duplicates, equivalent points and several gamma points; all
  option combinations''',
  '''tests run one or two thread counts on small q-lists with C-ordered float
  arrays; a data race or an aliasing of reduced q-points needs a particular
  schedule or q-list''',
  [FC, 'c/_euphonic.c', 'euphonic/validate.py'],
  [('OpenMP loop with per-thread buffers', 'c/_euphonic.c'),
   ('reduction by np.unique and re-expansion', FC),
   ('contiguity/dtype normalisation', 'euphonic/validate.py')],
  ['ForceConstants.calculate_qpoint_phonon_modes',
   'ForceConstants.calculate_qpoint_frequencies'])

p('C03', 'Interpolation is periodic in q and time-reversal symmetric',
  '''For any force constants, with or without the dipole correction and either
  acoustic sum rule, modes at q and q+G have equal frequencies and span equal
  eigenspaces for every reciprocal lattice vector G, and modes at -q have the
  frequencies of q with complex-conjugated eigenspaces. The mode gradient of
  non-degenerate modes is likewise periodic and odd in q.''',
  ['inputs'],
  '''all force constants, options, q-points and integer vectors G''',
  '''tests evaluate fixed q lists; symmetry partners are never compared''',
  [FC, 'c/dyn_mat.c'],
  [('phase sums over lattice vectors only', FC),
   ('q normalisation in the Ewald sum', FC)],
  ['ForceConstants.calculate_qpoint_phonon_modes'])

p('C04', 'Acoustic sum rule corrections remove exactly the acoustic error',
  '''With asr='realspace' or 'reciprocal' the three acoustic frequencies at
  gamma vanish to within numerical tolerance whenever three acoustic modes can
  be identified, the correction equals the projection onto the
  acoustic eigenvectors (of the supercell force constants, or of the gamma
  dynamical matrix), and force constants which already obey the sum rule are
  unaffected. If three acoustic modes cannot be identified, a
  warning is given and the uncorrected result is returned.''',
  ['inputs', 'configurations'],
  '''all force constants breaking the sum rule by a translation-covariant
  amount; all lattices and supercells; with and without Born charges''',
  '''tests compare stored output for a few materials''',
  [FC, 'c/_euphonic.c', 'euphonic/util.py'],
  [('realspace ASR on the supercell matrix', FC),
   ('reciprocal ASR on the gamma dynamical matrix', FC),
   ('relative supercell index', 'euphonic/util.py')],
  ['ForceConstants.calculate_qpoint_phonon_modes'])

p('C05', 'Gamma insertion and LO-TO splitting follow the path of q-points',
  '''With Born charges, splitting and insert_gamma, exactly the interior gamma
  points are duplicated, their weight halved over the two copies, and all other
  q-points and weights kept in order. At every gamma point the dynamical
  matrix is that without splitting plus the non-analytic term
  4 pi/V (Z.d)(Z.d)^T/(d.eps.d), with d the direction to the following
  q-point (preceding, if the following one is gamma too, or at the end); points other than gamma are
  unaffected, and there is no term without a direction.''',
  ['histories', 'inputs'],
  '''all sequences of q-points containing any number of gamma points (first,
  last, adjacent, G-equivalent or not), all Born charges and dielectrics''',
  '''tests use two materials and one path; adjacent gammas, gammas at both ends,
  threads and weights are not combined''',
  [FC, 'c/dyn_mat.c', 'c/_euphonic.c'],
  [('gamma insertion', FC), ('q-direction selection', FC),
   ('non-analytic correction', FC)],
  ['ForceConstants.calculate_qpoint_phonon_modes'])

p('C06', 'Dipole correction is consistent with the force constants it splits',
  '''Interpolating, with the dipole correction and without an acoustic sum rule, force constants obtained
  by subtracting the dipole part from total force constants gives, at every
  q-point commensurate with the supercell (no gamma splitting), exactly the
  modes of the total force constants, up to the constant on-site (q=0) term
  that keeps the dipole part acoustic. The correction
  does not depend on the Ewald parameter, on the origin or cell
  choice of the atoms, or on the units of the Born charges and dielectric.''',
  ['inputs', 'configurations'],
  '''all polar crystals, supercells, Born charges, dielectric tensors and Ewald
  parameters''',
  '''tests compare stored results at one Ewald parameter''',
  [FC, 'c/dyn_mat.c'],
  [('Ewald sum', FC), ('supercell dipole subtraction', FC)],
  ['ForceConstants.from_total_fc_with_dipole',
   'ForceConstants.calculate_qpoint_phonon_modes'])

p('C07', 'Mode gradients are the derivatives of the interpolated frequencies',
  '''For non-polar force constants the returned gradient of each mode, times
  twice its frequency, is the expectation value in the mode's eigenvector of the
  Cartesian q-derivative of the dynamical matrix, in energy times length
  units of the cell vectors. Mode widths
  derived from gradients scale with the gradient's magnitude and the
  q-spacing given.''',
  ['inputs'],
  '''all lattices, supercells, force constants, q-points and length units, C and
  Python''',
  '''tests compare stored gradients for 2 materials in one unit''',
  [FC, 'c/dyn_mat.c', 'euphonic/util.py'],
  [('dynamical matrix gradient', FC), ('calculate_mode_gradients', 'c/dyn_mat.c'),
   ('mode_gradients_to_widths', 'euphonic/util.py')],
  ['ForceConstants.calculate_qpoint_phonon_modes',
   'util.mode_gradients_to_widths'])

p('C08', 'Interpolation depends only on current data, not on earlier calls',
  '''Whatever calculations were made with a force constants object before (with
  other options, Ewald parameters or sum rules) and whatever data (force
  constants, Born charges, dielectric) were replaced through its public
  properties or whose display units were changed in between, the result of a calculation equals that of a freshly
  constructed object holding the current data. Calculations never
  change the object's publicly visible data.''',
  ['histories'],
  '''all sequences of calculations with different options, unit changes and
  data replacements''',
  '''tests build a fresh object for each call; stale caches need a particular
  sequence''',
  [FC], [('lazily cached image lists, ASR force constants and Ewald data', FC)],
  ['ForceConstants.calculate_qpoint_phonon_modes', 'ForceConstants setters'])

QPM = 'euphonic/qpoint_phonon_modes.py'
QF = 'euphonic/qpoint_frequencies.py'
p('C09', 'Reordering follows eigenvectors and only permutes modes',
  '''Reordering frequencies permutes the modes of each q-point, keeping every
  frequency with its eigenvector and losing or duplicating none. The
  first q-point keeps its order. At each step, modes are assigned to those of
  the previous q-point by repeatedly taking the largest remaining eigenvector
  overlap; where the path has just changed direction, and into and out of
  gamma points if they are not to be reordered, indices are kept as they were.''',
  ['inputs', 'histories'],
  '''all sequences of unitary eigenvector matrices (including exactly zero and
  tied overlaps) and q-point paths, both gamma options''',
  '''tests compare stored results for 2 materials; exact zero overlaps and
  crossings in unusual places never occur''',
  [QPM], [('greedy overlap assignment', QPM), ('mode index propagation', QPM)],
  ['QpointPhononModes.reorder_frequencies'])

p('C10', 'Neutron structure factors equal their defining sum',
  '''The structure factor of each mode is |sum over atoms of b/sqrt(m)
  exp(iQ.r) exp(-Q.W.Q) Q.e*|^2 times 1/(2 |omega|), in units of area, with the scattering
  lengths given per species (from a dictionary or a named data source), and
  the Debye-Waller factor present only if given. It is invariant to
  the global phase of an eigenvector and carries over crystal, q-points,
  weights and frequencies.''',
  ['inputs'],
  '''all crystals, modes, q-points, scattering length sources and units,
  with and without Debye-Waller''',
  '''tests compare a few stored arrays''',
  [QPM, 'euphonic/structure_factor.py', 'euphonic/util.py'],
  [('structure factor sum', QPM), ('get_reference_data', 'euphonic/util.py')],
  ['QpointPhononModes.calculate_structure_factor'])

p('C11', 'Debye-Waller factors equal the weighted thermal average',
  '''The Debye-Waller tensor of each atom is the weighted mean over q-points,
  and sum over modes above the frequency cut-off, of hbar/(4 M omega) coth(hbar omega/2kT) Re(e e*),
  per the documented formula (coth replaced by 1 at
  zero temperature); modes below the cut-off, and those of exactly zero frequency, contribute nothing. It
  is independent of how q-points are ordered, split or chunked and of the scale of the weights, and
  symmetrisation averages it over the space group operations.''',
  ['inputs', 'configurations'],
  '''all sets of modes, weights, temperatures, cut-offs, any number of
  q-points (below and above internal chunk sizes)''',
  '''tests use one material on one grid size with equal weights''',
  [QPM, 'euphonic/debye_waller.py'],
  [('chunked sum over q-points', QPM), ('symmetrisation', QPM)],
  ['QpointPhononModes.calculate_debye_waller'])

p('C12', 'DOS, PDOS and DOS maps bin every mode once with its weight',
  '''Without adaptive broadening each mode contributes its normalised q-point weight to
  exactly the bin [e_k, e_k+1) that contains it divided by the bin width, modes outside
  the bins contribute nothing, for any ascending bin edges in any unit. The partial DOS per atom
  weights by |e|^2 so that they sum, per species and over all, to the total DOS, with
  cross-section weightings multiplying each atom's share; the DOS map does the same per
  q-point.''',
  ['inputs'],
  '''all frequencies (including negative and on bin edges), weights, uneven
  bins, units, weighting options''',
  '''tests compare stored spectra on even bins''',
  [QF, QPM, 'euphonic/spectra.py'],
  [('np.histogram / digitize', QF), ('per-atom weights', QPM)],
  ['QpointFrequencies.calculate_dos', 'QpointFrequencies.calculate_dos_map',
   'QpointPhononModes.calculate_pdos'])

p('C13', 'Adaptive DOS sums one unit-area Gaussian per mode',
  '''With mode widths given and the reference method, the DOS at each bin centre is the
  weighted sum over modes of a normalised Gaussian centred at the mode
  frequency with the mode's width (not less than the minimum width). The fast method agrees with
  it within the requested error (area between the curves per unit area, for modes inside evenly spaced
  bins that resolve the widths), and for both, each atom's partial DOS carries
  the same Gaussian scaled by its share.''',
  ['inputs'],
  '''all frequencies, widths (uneven, very small, very large), weights and bins,
  both methods''',
  '''tests compare stored spectra''',
  [QF, QPM, 'euphonic/broadening.py'],
  [('per-mode Gaussian sum', QF), ('variable_width_broadening',
    'euphonic/broadening.py')],
  ['QpointFrequencies.calculate_dos', 'QpointPhononModes.calculate_pdos'])

SF = 'euphonic/structure_factor.py'
p('C14', 'S(q,w) maps place each mode with its detailed-balance occupation',
  '''In a scattering map each mode adds its structure factor times (n+1) to the
  bin of +omega and, when temperature is above zero, times n to the bin of -omega, divided
  by the bin width, with n the Bose occupation at the chosen temperature; with the Bose factor off, or no
  temperature known, the structure factor itself goes to both. Nothing else is added. The powder average of the
  same data is the weight-average over q-points.''',
  ['inputs'],
  '''all frequencies, structure factors, temperatures, energy bins with any
  units, sign and spacing''',
  '''tests compare stored maps at 2 temperatures on even bins''',
  [SF, 'euphonic/util.py'],
  [('digitize on both signs', SF), ('Bose factor', 'euphonic/util.py')],
  ['StructureFactor.calculate_sqw_map', 'StructureFactor.calculate_1d_average'])

SP = 'euphonic/spectra.py'
p('C15', 'Spectrum collections keep data and metadata together',
  '''Through any sequence of building from spectra, indexing, slicing, iterating, concatenating,
  selecting, grouping and summing, each line keeps its own data, units and metadata: shared
  metadata is factored out and restored exactly, selection
  returns exactly the matching lines in the order of the requested combinations of values, grouping sums exactly the lines with equal
  values (keeping only common metadata), and sum equals the element-wise
  sum of all lines. Invalid indices and unmatched selections raise.''',
  ['histories', 'inputs'],
  '''all sequences of collection operations on collections with arbitrary
  metadata and units, 1D and 2D''',
  '''tests exercise single operations on fixed collections''',
  [SP], [('metadata factoring', SP), ('select/group_by/sum', SP)],
  ['Spectrum1DCollection', 'Spectrum2DCollection'])

p('C16', 'Bin edges, centres, splitting and tick labels are consistent',
  '''Converting between bin edges and centres returns the right number of
  points with edges midway between centres (ends kept at the outermost centres) and centres midway between
  edges. Splitting a spectrum by indices, or at gaps wider than the tolerance times the median gap,
  partitions its points and stored x values in order without loss, with y, z and metadata attached, and each tick label lands in every
  segment that contains its index, re-based.''',
  ['inputs'],
  '''all x axes (even, uneven, edges or centres), split positions, tolerances
  and tick labels, for 1D, collections and 2D''',
  '''tests use few fixed spectra''',
  [SP, QF], [('_bin_edges_to_centres and inverse', SP), ('split', SP)],
  ['Spectrum.get_bin_edges', 'Spectrum.get_bin_centres', 'Spectrum.split'])

p('C17', 'Broadening is linear, area-preserving and uses the requested width',
  '''Broadening with a fixed width is a convolution: linear in the data,
  commuting with unit changes, conserving the area away from the ends, symmetric and centred, applied
  along the
  requested axis only, and the kernel has the requested FWHM (at every point, if the width is a function,
  to within the requested interpolation error).
  Broadening uneven bins by convolution is refused or
  warned about as documented, and other axes, metadata and labels are preserved.''',
  ['inputs'],
  '''all spectra, bins, widths, shapes, axes and units''',
  '''tests compare stored spectra for one width''',
  [SP, 'euphonic/broadening.py'],
  [('_gfwhm / lorentzian kernels', SP), ('correlate1d/gaussian filter', SP)],
  ['Spectrum1D.broaden', 'Spectrum1DCollection.broaden', 'Spectrum2D.broaden'])

p('C18', 'Kinematic constraints keep exactly the reachable (Q, E) bins',
  '''Applying kinematic constraints to a 2D spectrum sets to NaN exactly those bins
  of whose momentum range (between its bin edges) no part can be reached at the energy transfer of the
  bin centre, for the given incident (direct geometry) or final (indirect geometry) energy and any
  scattering angle in the given range; it leaves all other bins, the axes, labels and metadata
  unchanged, for any x and y units and any order, sign and extent of the range of angles.
  The input is not modified; giving both or neither energy is refused.''',
  ['inputs'],
  '''all energies, angle ranges (any order/sign), bins and units''',
  '''tests compare a handful of masks''',
  [SP], [('apply_kinematic_constraints', SP)],
  ['spectra.apply_kinematic_constraints'])

p('C19', 'Units of every quantity can change without changing its value',
  '''For every public quantity of every class, setting a dimensionally
  consistent unit converts the returned value exactly and leaves all other
  data unchanged, whatever the sequence of unit changes, assignments and
  calculations. Inconsistent or unknown units are refused with an error and leave the object as it
  was, and results of calculations do not depend on
  the display units of their inputs.''',
  ['histories', 'inputs'],
  '''all sequences of unit changes and value assignments over all classes,
  including wavenumber/energy and temperature units''',
  '''tests set one unit at a time on fixed objects''',
  ['euphonic/validate.py', SP, QF, QPM, FC, SF, 'euphonic/crystal.py',
   'euphonic/debye_waller.py'],
  [('unit properties and __setattr__ check', 'euphonic/validate.py')],
  ['*_unit attributes', 'Quantity properties'])

p('C20', 'Serialisation round-trips every object exactly',
  '''For every serialisable class, from_dict(to_dict(x)) and
  from_json_file(to_json_file(x)) give an object equal to x in every value, unit,
  metadata, label and shape, optional parts included, whatever
  the memory layout or history of x (phonon quantities to within rounding of the conversion between
  display and internal units, all other data exactly; the file holds exactly what the
  dictionary does). The dictionary shares no mutable state with x.''',
  ['inputs', 'histories'],
  '''all objects of all classes with every combination of optional data, units
  and array layouts''',
  '''tests round-trip a few stored objects''',
  ['euphonic/io.py', SP, FC, QPM, QF, SF, 'euphonic/crystal.py',
   'euphonic/debye_waller.py'],
  [('_obj_to_dict/_process_dict', 'euphonic/io.py'),
   ('complex <-> real JSON encoding', 'euphonic/io.py')],
  ['to_dict', 'from_dict', 'to_json_file', 'from_json_file'])

p('C21', 'Objects are isolated: operations do not change their operands',
  '''Copies and results of operations (arithmetic, broadening, splitting, indexing, conversion, calculation)
  never alias the operand's data or metadata: changing one through its public
  properties never changes the other. Operands and array arguments keep
  their value through every operation that is not documented as in-place, and in-place
  scaling changes only its target.''',
  ['histories'],
  '''all sequences of copies, arithmetic, calculations and modifications''',
  '''tests check a few results, not operands after operations''',
  [SP, QF, QPM, SF, 'euphonic/crystal.py'],
  [('copy methods', SP)], ['copy', '__add__', '__mul__', '__getitem__', 'split'])

p('C22', 'Constructors reject inconsistent data',
  '''Constructing any object with an argument of wrong type or with
  an array whose shape does not fit the other arguments raises TypeError or
  ValueError, and every
  consistent combination is accepted and read back unchanged. In particular no inconsistent
  object can come from a dictionary or JSON either.''',
  ['inputs'],
  '''all combinations of argument types, units and shapes for all classes''',
  '''tests list some faulty arguments per class''',
  ['euphonic/validate.py', SP, FC, QPM, QF, SF, 'euphonic/crystal.py',
   'euphonic/debye_waller.py'],
  [('_check_constructor_inputs', 'euphonic/validate.py')], ['__init__', 'from_dict'])

p('C23', 'CASTEP files are read back as written',
  '''Any well-formed CASTEP .phonon, .phonon_dos or .castep_bin/.check content, for any
  number of atoms, species, q-points, repeated q-points, LO-TO split gamma
  blocks and units, is read into exactly its crystal, q-points, weights, frequencies,
  eigenvectors, DOS and force constants. The
  repeat-averaging and prefer-non-LO-TO options select or merge exactly
  the documented blocks.''',
  ['inputs'],
  '''all file contents produced by a writer model of each format''',
  '''tests read a handful of sample files''',
  ['euphonic/readers/castep.py'],
  [('block reader', 'euphonic/readers/castep.py'),
   ('record reader', 'euphonic/readers/castep.py')],
  ['QpointPhononModes.from_castep', 'Spectrum1D.from_castep_phonon_dos',
   'ForceConstants.from_castep'])

p('C24', 'Phonopy files are read back as written',
  '''Any well-formed Phonopy output (phonopy.yaml with any primitive/supercell,
  full or compact force constants in any file format and unit system, BORN
  data, and mesh/band/qpoints phonon files in yaml or hdf5) is read into
  exactly the crystal, force constants, Born data, q-points, weights, frequencies and eigenvectors it
  encodes, with its cell ordering and eigenvector phase convention converted to Euphonic's.''',
  ['inputs'],
  '''all file contents produced by a writer model of each format, atom and cell
  orderings''',
  '''tests read sample files of 3 materials''',
  ['euphonic/readers/phonopy.py', 'euphonic/util.py'],
  [('yaml/hdf5/text readers', 'euphonic/readers/phonopy.py'),
   ('force constants reordering', 'euphonic/util.py')],
  ['ForceConstants.from_phonopy', 'QpointPhononModes.from_phonopy'])

p('C25', 'Crystal geometry and symmetry queries are exact',
  '''The reciprocal cell is dual to the cell (times 2 pi), volume is positive
  and equals the triple product, the grid for a spacing is the smallest one at least that dense (never
  below one), and species indices partition the atoms in order. Symmetry
  equivalent atoms are permutations within a species that satisfy R r + t = r modulo lattice
  vectors for each returned space-group operation.''',
  ['inputs'],
  '''all cells, atom arrangements, species labels, spacings and length units''',
  '''tests use 3 crystals''',
  ['euphonic/crystal.py'],
  [('reciprocal_cell', 'euphonic/crystal.py'),
   ('get_symmetry_equivalent_atoms', 'euphonic/crystal.py')],
  ['Crystal methods'])

p('C26', 'Sampling schemes give the requested, well-formed points',
  '''Each sampling scheme yields exactly the requested number of points, inside
  the unit square or on the unit sphere, following its documented construction (golden-ratio
  spiral/lattice, regular grid with jitter of at most half a cell that stays in the unit square,
  latitude rings whose sizes follow their circumference and add up to the number asked for).
  Monkhorst-Pack grids are the centred regular grid, symmetric under inversion,
  for every size. Powder averages are the mean over the sphere points of the
  per-point quantity, for any |Q|, sampling and npts (the grid schemes, in any case of name, may round
  npts up to the next usable number and use every point of that number).''',
  ['inputs', 'configurations'],
  '''all numbers of points (including the smallest), jitter, sampling schemes,
  grid sizes''',
  '''tests check selected sizes''',
  ['euphonic/sampling.py', 'euphonic/powder.py', 'euphonic/util.py'],
  [('generators', 'euphonic/sampling.py'),
   ('sphere averages', 'euphonic/powder.py')],
  ['sampling.*', 'powder.sample_sphere_*', 'util.mp_grid'])

p('C27', 'Dispersion axes measure the path and label its special points',
  '''The x axis of a dispersion (and of a DOS map or S(Q,w) map) is the cumulative Cartesian
  reciprocal-space length of the q-point path in the unit of the inverse cell, in which a step between
  points that differ by a reciprocal lattice vector adds no length, and each branch of the dispersion is the
  frequency at its q-point. Labels are put exactly at the first and last points, at gamma points, at points
  that are repeated next, and where the path bends (to the documented tolerance). The symbol of a
  label is that of a special point which is equivalent by symmetry or time reversal, and special points always
  have one, whichever reciprocal lattice vector is added to them; if there is none at all, labels are coordinates.''',
  ['inputs', 'histories'],
  '''all q-point sequences (repeats, direction changes, jumps), cells and units''',
  '''tests use stored band paths''',
  [QF, 'euphonic/util.py', SP],
  [('_calc_abscissa', 'euphonic/util.py'),
   ('get_qpoint_labels', 'euphonic/util.py')],
  ['QpointFrequencies.get_dispersion', 'util.get_qpoint_labels'])

p('C28', 'Command-line tools compute what the library calls compute',
  '''For each of euphonic-dos, -dispersion, -intensity-map and -powder-map, what is written by --save-json and
  shown in the figure, for given options, is the result of the documented library operations on the same file
  with those options, in their documented meaning: sampling grids or |q| shells, energy bins that by
  default contain all of the modes, weighting and PDOS groups, adaptive widths, broadening given as FWHM (one
  value or coefficients of a polynomial), temperature, kinematic limits, scale, units. A band
  structure from force constants goes along the recommended path, has both limits at gamma points which it goes
  through, and is split exactly where the path is not continuous. Options that contradict each other or the
  data in the file are refused and nothing is written. Files are recognised by their name and contents.''',
  ['configurations'],
  '''all combinations of options of euphonic-dos, -dispersion, -intensity-map
  and -powder-map''',
  '''tests compare stored output for a list of option sets''',
  ['euphonic/cli/dos.py', 'euphonic/cli/dispersion.py',
   'euphonic/cli/intensity_map.py', 'euphonic/cli/powder_map.py',
   'euphonic/cli/utils.py'],
  [('argument handling', 'euphonic/cli/utils.py')], ['CLI main functions'])

p('C29', 'Plots show every point of the spectra they are given',
  '''Plotting 1D spectra draws every line of every piece once, with the given
  data in the units of the first piece, with the widths of the pieces in
  proportion to their x ranges, ticks and their names at the tick labels of
  each piece, one legend entry per named line, and common y limits that
  contain all of the data unless limits are requested. Where x is repeated
  inside a piece the data are still all drawn. Plotting 2D spectra draws
  every bin of every piece once, at its centre, in an image as wide as its
  bin edges, in the units of the first piece,
  with one colour scale for all pieces that spans all finite values of the
  data (or is as requested), bins without a value left empty.''',
  ['inputs'],
  '''all spectra, splits, labels, units and plot options''',
  '''tests compare some figures' attributes''',
  ['euphonic/plot.py'], [('plot_1d/plot_2d', 'euphonic/plot.py')],
  ['plot.plot_1d', 'plot.plot_2d'])

p('C30', 'Reference data: every number of a collection is used, in its unit',
  '''Asking for a physical property of a collection, built-in or in a JSON file,
  gives every element whose value is a number (whole, other or complex) with
  exactly that value in the unit of the property, and nothing else; text and
  null are left out. Structure factors, PDOS and their powder averages that
  are given the name of a collection are the same as with a dictionary of
  these values, coherent-plus-incoherent weights being the sum of both cross
  sections whatever their units. Collections or properties that do not exist,
  properties without a unit or with an unknown one, missing elements and
  units of the wrong dimension are errors. The built-in scattering lengths
  and cross sections agree with each other (sigma = 4 pi |b|^2).''',
  ['inputs'],
  '''all files, units and kinds of values, all consumers''',
  '''tests read one custom file and a few built-in values''',
  ['euphonic/util.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/powder.py'],
  [('get_reference_data', 'euphonic/util.py')],
  ['util.get_reference_data', 'calculate_structure_factor', 'calculate_pdos'])

p('C31', 'Text files of spectra list every point and line with units and metadata',
  '''Writing a spectrum or a collection of spectra to a text file gives one row
  per point: first the x value (the centre of the bin where the x data are bin
  edges), then the value of every line in order, each in the units the
  spectrum is shown in and with the precision of the format of its column
  (all digits when none is given). The header names the units of both, the
  metadata common to all lines, and for each column the metadata of its line,
  none mixed up. The spectrum itself is not changed by writing it.''',
  ['inputs'],
  '''all spectra, collections, units, formats and metadata''',
  '''tests compare a few files with stored ones''',
  ['euphonic/spectra.py'],
  [('Spectrum1DCollection.to_text_file', 'euphonic/spectra.py')],
  ['Spectrum1D.to_text_file', 'Spectrum1DCollection.to_text_file'])

p('C32', 'Helper tools: the fastest dipole parameter, the requested sampling',
  '''euphonic-optimise-dipole-parameter tries every dipole parameter from the
  lowest to the highest asked for (included if steps lead to it) once, with
  the calculation options it is given. The time it reports for a parameter is
  that of its calculations alone, for one point and per point of n points that
  are all calculated, and it suggests one whose time per point is the
  shortest; it refuses files without force constants and warns about missing
  charges. euphonic-show-sampling draws exactly the points of the sampling
  function it is asked for: as many as asked for, or, where they lie on a
  grid, the smallest grid that holds them, saying so; with jitter they are
  displaced within their cells.''',
  ['inputs', 'schedules'],
  '''all limits, steps, numbers of points, options and courses of time''',
  '''tests run three cases against the real clock and compare some figures''',
  ['euphonic/cli/optimise_dipole_parameter.py', 'euphonic/cli/show_sampling.py'],
  [('calculate_optimum_dipole_parameter', 'euphonic/cli/optimise_dipole_parameter.py'),
   ('main', 'euphonic/cli/show_sampling.py')],
  ['euphonic-optimise-dipole-parameter', 'euphonic-show-sampling'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
