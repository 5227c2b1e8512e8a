"""Writes DESIGN.md: design_head.md, a section for each property, findings,
planted bugs and design_tail.md."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(V + '/tools/level_notes.json'))
known = json.load(open(V + '/known_findings.json'))
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
D = {
 'C01': ('Interp, Num', 'ImagesExist, Hermitian, GammaSum',
  'State: an integer Gram matrix, supercell matrix, cell origins, integer force constants and a q-point n/m. Each step takes one cell: finds by exhaustive exact search every supercell image at the smallest distance, and adds its share of the phase as a coefficient vector of roots of unity. The lattice-vector search is exact, so images on Wigner-Seitz boundaries are neither missed nor counted twice.',
  'D(q) is rebuilt from the returned frequencies and eigenvectors (orthonormality, order and units checked on the way) and compared with the exact matrix; near-border positions are moved by less and more than the documented tolerance'),
 'C02': ('Engine, Interp', 'Correct, NoDoubleWork, ReducedSmaller',
  'State: the list of q-points, the reduced list and its inverse, per-thread scratch and program counters. All interleavings of the parallel loop are explored; a variant with the shared scratch variables of the original C code is refuted by the same invariants (that is how the data race was found).',
  'every emitted list of q-points (equal, equivalent, opposite, gamma with directions) is calculated by each engine, thread count, optimisation level and argument layout, and must be the same as one by one'),
 'C03': ('Orbits', 'OnStar, RealAtTrim', 'State: a wave vector; actions: add a reciprocal lattice vector, reverse time.',
  'modes at each point of the walk are compared with those of the start: frequencies, D(q) up to the phase convention, complex conjugate after reversal; polar and not, both engines, with and without reduction'),
 'C04': ('Asr, Interp', 'SumRule, Identity, OnlyTranslations', 'State: the force on each atom under rigid translations, accumulated cell by cell. The projection on translations is exact; invariants: corrected rows sum to zero, corrections of correct force constants are nothing, only the rigid translations are touched.',
  'corrected matrices of the code (realspace: the total matrix at q; reciprocal: D(q) - correction) against the exact ones'),
 'C05': ('GammaPath', 'PathKept, WeightKept, BothSides, OnlyGamma', 'State: the given path, the calculated path with directions, weights. One point at a time is inserted, then split; the non-analytic term is a rational matrix.',
  'q-points, weights and the difference between D with and without splitting are compared at each point'),
 'C06': ('Fold, Gauge, Interp', 'Restored, Count, GaugeLaw, Exchange', 'Long-range force constants are folded onto the supercell and taken off; interpolation at commensurate points has to restore them. Equivalent descriptions of a crystal (atoms moved by lattice vectors, shifted origin, other cells) are actions.',
  'from_total_fc_with_dipole and interpolation against exact totals; independence of Ewald parameter, units, handedness; behaviour near gamma against the analytic limit'),
 'C07': ('Interp, Widths', 'Norm, Width, Cube, Linear', 'The derivative of the exact lattice sum by the chain rule over integer distances; mode widths from gradients by cube roots.',
  'gradients of non-degenerate modes, traces over degenerate groups; finite differences of the code\'s own D(q) for the dipole part; signs for unstable modes'),
 'C08': ('Cache', 'Fresh', 'State: versions of the data and of every value derived from them. Invariant: a calculation only uses derived data of current versions. Variants without each of the invalidations are refuted.',
  'each history runs on one object; each result is compared with that of a fresh object with the current data'),
 'C09': ('Reorder', 'Permutes, OneToOne, Follows, Orthonormal', 'State: which modes of the next q-point are still free. One match at a time in order of overlap; ties give a set of allowed matches. Eigenvectors are Gaussian integers.',
  'the permutation of the code is one that the model allows at each q-point; frequencies and eigenvectors are permuted together'),
 'C10': ('SFactor', 'Real, PhaseFree, GammaDark, Commutes', 'State: the sum atom by atom in roots of unity; square roots of masses are integers, Debye-Waller factors powers of two.', 'intensities in mbarn, with and without Debye-Waller factors'),
 'C11': ('DWaller, Symmetry', 'OrderFree, Physical, Group, Projects', 'State: the sum of q-points so far in rationals; occupation numbers are exact because frequencies are multiples of kT ln 2. Symmetrisation is the average over the exhaustively found space group.', 'tensors in bohr^2 for each atom'),
 'C12': ('Dos', 'MSum, AtMostOneBin, Total, PartsSum, Inside, Area', 'State: bins, filled mode by mode in integers.', 'DOS, PDOS (each weighting) and maps, bin by bin'),
 'C13': ('Adapt', 'PartsSum, AllReach, NotTooNarrow', 'State: for each bin centre the multiset of (weight, width, exponent); Gaussians are powers 2^-(d^2/s^2), kept as exact exponents.', 'reference method to 1e-9; fast method within the requested error of the reference'),
 'C14': ('Sqw', 'Exact, Counted, Sym, Balance', 'State: bins, filled mode by mode with occupation numbers 1/(2^k - 1) as rationals.', 'every bin, both signs of energy, detailed balance'),
 'C15': ('Collect', 'Restores, Separate, GroupSum, GroupOnce', 'State: collections as lines with complete metadata; how common metadata is stored is not part of the state.', 'every observation of the API after each of eight calls'),
 'C16': ('Axis', 'First, Whole, Labelled, Tile', 'State: pieces with the identities of points and labels. Cuts, labels, units are actions.', 'edges, centres, widths, labels and data of every piece'),
 'C17': ('Broaden', 'Direct, Uniform, Mirrored, Whole', 'State: a symbolic sum of kernel values; the kernel is put in by the driver.', 'broadened data in the interior and at the borders, areas, linearity, units'),
 'C18': ('Kinematic', 'Interval, Elastic, Beyond', 'Reachability of a bin is a comparison of integers: angles are multiples of 30 and 45 degrees, whose squared cosines are rational, so that comparisons are decided by squaring.', 'mask of each bin'),
 'C19': ('Units, Num', 'Agrees, ReadBack', 'Values and unit scales are logarithms, so that linear conversions are shifts and reciprocal ones (energy to wavelength) reflections; internal and display units are both in the state.', 'all quantities of all objects after each step, and calculations'),
 'C20': ('Values', 'Named, RoundTrip', 'Objects, dictionaries and files with contents; writing and reading pass contents on.', 'after each call all items are compared with their contents'),
 'C21': ('Values', 'Named, Frame', 'Only the target of a modification changes content.', 'after each call all items and the arguments of calls are compared with their contents'),
 'C22': ('Checked', 'Unchanged, Wrong', 'An argument list fits if there are sizes for which it is as described; one or two things are changed.', 'accepted or refused with the documented kind of error, from constructor, dictionary and file'),
 'C23': ('Castep', 'Conserved, Onto', 'State: a file so far and what has to be found in it; block by block, with repeated q-points, directions, truncated and binary records.', 'every written file is read; everything read is compared'),
 'C24': ('Phonopy, Num', 'Classes, Onto, Compact, PartnerTwice, FoundAll', 'State: cells, atom orders, force constants by pair, sources of Born data, in the files of Phonopy.', 'force constants by pair, crystal, charges, modes at commensurate q-points from an independent dynamical matrix'),
 'C25': ('Geometry, Symmetry', 'IsDual, Minimal, Partition, Group, Permutes', 'Integer metric; dual and volume are rational; grids are refined one step at a time until dense enough; symmetry by exhaustive search.', 'all geometry methods of Crystal'),
 'C26': ('Sampling, Num', 'Full, Inside, Distinct, Inversion, Shares, Rows', 'Point sets one point at a time, with the golden ratio decided by squares of integers.', 'each point of each scheme; recorded per-point calls and their mean for powder averages'),
 'C27': ('Path, Symmetry', 'Ordered, Equivalent, Isometry, Straightness', 'A path point by point; squared lengths are integers; bends by exact cross products; special points by the exact space group.', 'x axis, label positions and symbols, branches of dispersions and maps'),
 'C28': ('Cli, Load', 'PathOk, Used, Order, Enough, FreqsOnly', 'State: options given so far, the path of the band structure segment by segment, and the plan of library operations the tool has worked through. Invariant "Used": every option that is given is used by some operation, unless the specification says that it has no effect in this run.', 'the real entry points are run; the plan is carried out with library calls; saved data and figures are compared; errors write nothing'),
 'C29': ('Plot', 'EveryPoint, EveryBin', 'State: pieces of a spectrum, point by point, then their axes: runs of joined points, bins, ranges, ticks.', 'artists of the figures'),
 'C30': ('RefData', 'Complete, SameWeights', 'State: a file so far, a request, the answer so far.', 'answers and errors for each request; quantities against those from the weights of the specification'),
 'C31': ('TextFile', 'Faithful, Ascending', 'State: a spectrum put together point by point, its metadata and formats, and the file written line by line.', 'every line of the files written: units, metadata, shape and value of every cell; the spectrum before and after'),
 'C32': ('Optimise, Show', 'Covers, Measured, Clock, Enough, Smallest, Exact', 'State: a clock, the parameters tried and the times taken (Optimise); the grid grown row by row (Show).', 'the tools run with a virtual clock that only calculations and printing move; their results, output and calculations are compared; artists of the figures against the sampling functions'),
}
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Properties', '']
for p in props:
    mods, inv, state, how = D[p['id']]
    n = notes[p['id']]
    out += [f"### {p['id']} {p['title']}", '',
            f'- **Specified** ({mods}): {state} Checked by TLC in every state: {inv}.',
            f'- **Bound to the code**: {how}.',
            f"- **Bounds**: {n['note'].rstrip('.')}.",
            f"- **Beyond the tests**: {p['why_tests_cant'].rstrip('.')}; "
            f"the property quantifies over {p['quantifier']['text'].rstrip('.')}.", '']
out += ['## Genuine defects found', '',
        'Repaired by `fix:` commits in /repo (the check of the property fails without them):', '']
out += ['- ' + f[len('fixed: property='):] for f in known['fixed']]
out += ['', 'Known findings, not repaired (known_findings.json; the existing tests or their',
        'reference data hold the wrong behaviour, so that a repair cannot keep them unedited):', '']
out += [f"- {f['property']} `{f['key']}`: {f['what']}" for f in known['findings']]
out += ['', '## Planted bugs', '',
        'Each was written from the text of a property and the code, is valid (builds, passes',
        'the stable tests, its demonstration tells it apart), and lies in seeded/. Unless stated',
        'in "Misses" below it was caught by the quick check of its property at the first attempt;',
        'all of them are caught now.', '']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    out.append(f"- `{f.split('/')[-2]}` ({m['property']}): {m['what_it_breaks']} "
               f"[needs: {m['needs']}]")
out += ['', open(V + '/tools/design_tail.md').read().rstrip(), '']
with open(V + '/DESIGN.md', 'w') as f:
    f.write('\n'.join(out))
