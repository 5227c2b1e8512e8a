"""C27: distances along paths in reciprocal space and labels of their points."""
import warnings
import numpy as np
from vf import lattice as L

# metric, positions (over 4), species: cells which are their own standard
# primitive cell (checked below)
def metric(c):
    c = np.array(c)
    return (c @ c.T).tolist()


LATTICES = {
    'cP': (metric(2*np.eye(3, dtype=int)), [[0, 0, 0]], ['Po']),
    'CsCl': (metric(2*np.eye(3, dtype=int)), [[0, 0, 0], [2, 2, 2]], ['Cs', 'Cl']),
    'cI': (metric([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]), [[0, 0, 0]], ['Fe']),
    'cF': (metric([[0, 1, 1], [1, 0, 1], [1, 1, 0]]), [[1, 1, 1]], ['Al']),
    'NaCl': (metric([[0, 1, 1], [1, 0, 1], [1, 1, 0]]),
             [[2, 2, 2], [0, 0, 0]], ['Na', 'Cl']),
    'ZnS': (metric([[0, 1, 1], [1, 0, 1], [1, 1, 0]]),
            [[0, 0, 0], [1, 1, 1]], ['Zn', 'S']),
    'tP': (np.diag([4, 4, 6]).tolist(), [[0, 0, 0]], ['Pa']),
    'tP2': (np.diag([6, 6, 4]).tolist(), [[0, 0, 0], [0, 0, 1]], ['Pb', 'O']),
    'hP': ([[2, -1, 0], [-1, 2, 0], [0, 0, 5]], [[0, 0, 0]], ['Mg']),
    'oP': (np.diag([3, 4, 6]).tolist(), [[0, 0, 0]], ['Ga']),
    'oP2': (np.diag([3, 4, 6]).tolist(), [[0, 0, 0], [0, 0, 1]], ['Ga', 'N']),
    'hR1': ([[4, 1, 1], [1, 4, 1], [1, 1, 4]], [[0, 0, 0]], ['As']),
    'hR2': ([[5, -1, -1], [-1, 5, -1], [-1, -1, 5]], [[0, 0, 0]], ['Bi']),
    'aP1': ([[6, 1, 1], [1, 5, 1], [1, 1, 4]], [[0, 0, 0]], ['U']),
    'aP2': ([[6, -1, -1], [-1, 5, -1], [-1, -1, 4]], [[0, 0, 0], [1, 0, 1]],
            ['U', 'O']),
}
# tetragonal body-centred: exact metrics from integer cells with c^2 = k a^2
def bct(a2, c2):
    # (-1,1,1), (1,-1,1), (1,1,-1) times (a, a, c)/2; times 4
    p, m = 2*a2 + c2, c2
    return [[p, -2*a2 + m, -m], [-2*a2 + m, p, -m], [-m, -m, p]]


LATTICES['tI1'] = (bct(2, 1), [[0, 0, 0]], ['Ti'])
LATTICES['tI2'] = (bct(1, 3), [[0, 0, 0]], ['In'])
D = 24
FRAC = {'0': 0., '1/4': .25, '3/4': .75, '1/2': .5, '1/3': 1/3, '2/3': 2/3,
        '3/8': .375, '5/8': .625}
GAMMA = '$\\Gamma$'
STEPS = {(1, 0, 0), (0, 2, 0), (0, 0, 3), (4, 4, 0), (0, 6, 6), (3, 0, 3),
         (2, 2, 2), (-4, 4, 2), (12, 0, 0), (0, -8, 8), (6, -6, 0), (-3, -3, -3),
         (5, 2, -1)}


def crystal(name, k):
    from euphonic import Crystal, Quantity
    g, r, sp = LATTICES[name]
    a = 1.7*L.cell_from_gram(g)
    u = ('angstrom', 'bohr', 'nm')[k % 3]
    c = Crystal(Quantity(a, u), np.array(r)/4, np.array(sp),
                Quantity(np.full(len(sp), 30.), 'amu'))
    if k//3 % 2:
        c.cell_vectors_unit = ('nm', 'angstrom', 'bohr')[k % 3]
    return c


def special_points(name):
    """Names and coordinates of seekpath, which is not under test."""
    import seekpath
    c = crystal(name, 0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = seekpath.get_path(c.to_spglib_cell())
    a, b = p['primitive_lattice'], c.cell_vectors.to('angstrom').magnitude
    if not np.allclose(a @ a.T, b @ b.T):
        return None
    names = list(p['point_coords'])
    co = np.array([p['point_coords'][n] for n in names])*D
    if np.abs(co - np.rint(co)).max() > 1e-6:
        return None
    return names, np.rint(co).astype(int).tolist()


def run(ck):
    rng = L.rng_for(ck.seed, 'c27')
    inv = ['Ordered', 'Equivalent', 'Isometry', 'Straightness', 'Emit']
    use = sorted(LATTICES)
    if ck.quick:
        use = ['cI', 'tP', 'hP'] + [use[i] for i in rng.permutation(len(use))[:5]]
        use = sorted(set(use))
    count = 0
    for name in use:
        sp = special_points(name)
        if sp is None:
            ck.sample(f'{name}: not its own standard primitive cell')
            continue
        names, pts = sp
        g, r, species = LATTICES[name]
        cs = {'D': D, 'Gram': g, 'R': r, 'rden': 4,
              'sp': [species.index(s) + 1 for s in species], 'Points': pts,
              'Steps': STEPS, 'Guard': 24000, 'T': 0,
              'NMoves': ck.pick(9, 14)}
        t = ck.tlc('Path', constants=cs, invariants=inv,
                   simulate=ck.pick(25, 250), depth=cs['NMoves'] + 1, seed=ck.seed)
        for k, i in enumerate(rng.permutation(len(t.emitted))[:ck.pick(25, 250)]):
            h = t.emitted[i]
            ck.replay(f'{name} {h["how"]}',
                      lambda: path(h, name, names, D, k, ck.seed), case=h)
            count += 1
            if k % 20 == 0:
                ck.sample([name, h['how'], [(m['at'], [names[j - 1] for j in m['names']])
                                            for m in h['labels']]])
        # steps about as small as the tolerance for bends
        if name in ('cP', 'hP', 'oP', 'tI1'):
            f = dict(cs, D=1000, T=5, Points=[[0, 0, 0]], NMoves=8, Steps={
                (2, 0, 0), (0, 2, 0), (0, 0, 3), (3, 0, 0), (0, 3, 0), (1, 1, 1),
                (0, 4, -3), (7, 1, 0), (-2, 1, 0)})
            t = ck.tlc('Path', constants=f, invariants=inv,
                       simulate=ck.pick(15, 150), depth=9, seed=ck.seed)
            for k, i in enumerate(rng.permutation(len(t.emitted))[:ck.pick(15, 150)]):
                h = t.emitted[i]
                ck.replay(f'fine {name} {h["qs"]}',
                          lambda: path(h, name, None, 1000, k, ck.seed), case=h)
    # without a crystal: generic symbols
    gen = [(a, b, c) for a in FRAC for b in FRAC for c in FRAC]
    pts = [[round(D*FRAC[x]) for x in t] for t in gen]
    cs = {'D': D, 'Gram': LATTICES['aP1'][0], 'R': [[0, 0, 0]], 'rden': 4, 'sp': [1],
          'Points': pts, 'Steps': STEPS, 'Guard': 24000, 'T': 0, 'NMoves': 8}
    t = ck.tlc('Path', constants=cs, invariants=['Ordered', 'Straightness', 'Emit'],
               simulate=ck.pick(12, 100), depth=9, seed=ck.seed)
    for k, i in enumerate(rng.permutation(len(t.emitted))[:ck.pick(20, 200)]):
        h = t.emitted[i]
        ck.replay(f'generic {h["qs"]}',
                  lambda: generic(h, [' '.join(t) for t in gen], k), case=h)


def floats(h, d, k):
    q = np.array(h['qs'], dtype=float).reshape(-1, 3)/d
    if k % 3 == 1:
        # rounding, as left over from computed paths
        q[q == 0.] = (-1)**k*5e-17
    return q


def labels_ok(got, want, names, q, what):
    if [g[0] for g in got] != [w['at'] for w in want]:
        return (f'{what}: labels at {[g[0] for g in got]}, should be at '
                f'{[w["at"] for w in want]}')
    if not all(type(g[0]) is int for g in got):
        return f'{what}: label positions are not plain ints'
    if all(g[1] == '' or g[1].startswith('[') for g in got):
        # no special points at all: coordinates
        for g, w in zip(got, want):
            if w['must']:
                return f'{what}: no symbol at {q[g[0]].tolist()}'
            if g[1] != str(np.around(q[g[0]], decimals=2)):
                return f'{what}: label {g[1]!r} at {q[g[0]].tolist()}'
        return None
    for g, w in zip(got, want):
        ok = [GAMMA if names[j - 1] == 'GAMMA' else names[j - 1]
              for j in w['names']] + [''][w['must']:]
        if g[1] not in ok:
            return (f'{what}: label {g[1]!r} at {q[g[0]].tolist()}, should be '
                    f'one of {ok}')


def path(h, name, names, d, k, seed):
    from euphonic import QpointFrequencies, Quantity, StructureFactor
    from euphonic.util import get_qpoint_labels
    rng = L.rng_for(seed, 'c27', name, str(h['qs']))
    c = crystal(name, k)
    q = floats(h, d, k)
    n, m = len(q), 3*c.n_atoms
    f = Quantity(rng.integers(1, 90, (n, m)) + .5, 'meV')
    qf = QpointFrequencies(c, q, f)
    if k % 2:
        qf.frequencies_unit = '1/cm'
    det = round(np.linalg.det(np.array(LATTICES[name][0], dtype=float)))
    # lengths: metric is in units of (1.7 u)^2
    u = ('angstrom', 'bohr', 'nm')[k % 3]
    x = np.cumsum(2*np.pi*np.sqrt(np.array(h['len2'])/det)/d/1.7)

    def axis(s, what):
        got = s.x_data.to(f'1/{u}').magnitude
        if got.shape != x.shape or np.abs(got - x).max() > 1e-9*(1 + x[-1]):
            return f'{what}: x is {got.tolist()} should be {x.tolist()}'
        if s.x_data.units != (1/c.cell_vectors).units:
            return f'{what}: x in {s.x_data.units}'
        if names is None:
            at = [t[0] for t in s.x_tick_labels]
            want = [w['at'] for w in h['labels']]
            return None if at == want else f'{what}: labels at {at} should be {want}'
        return labels_ok(s.x_tick_labels, h['labels'], names, q, what)
    disp = qf.get_dispersion()
    r = axis(disp, 'dispersion')
    if r:
        return r
    y = disp.y_data
    if y.shape != (m, n) or not np.allclose(
            y.to('meV').magnitude, f.magnitude.T, rtol=1e-12) or \
            y.units != qf.frequencies.units:
        return 'branches are not the frequencies'
    if names is not None:
        r = labels_ok(get_qpoint_labels(q, cell=c.to_spglib_cell()), h['labels'],
                      names, q, 'get_qpoint_labels')
        if r:
            return r
    if k % 2 == 0:
        bins = Quantity(np.array([0., 30., 60., 100.]), 'meV')
        r = axis(qf.calculate_dos_map(bins), 'dos map')
        if r:
            return r
        sf = StructureFactor(c, q, f, Quantity(rng.random((n, m)), 'bohr**2'))
        s = sf.calculate_sqw_map(bins, calc_bose=False)
        r = axis(s, 'sqw map') or axis(sf.get_dispersion(), 'structure factor')
        if r:
            return r
    return None


def generic(h, names, k):
    from euphonic.util import get_qpoint_labels
    q = floats(h, D, k)
    got = get_qpoint_labels(q) if k % 2 else get_qpoint_labels(q, cell=None)
    return labels_ok(got, h['labels'], names, q, 'generic')
