"""Seeded generators of lattices/force constants and the refinement mapping
between the exact model values and Euphonic objects."""
import itertools
import numpy as np


def rng_for(seed, *tags):
    import hashlib
    h = hashlib.sha256(repr((seed,) + tags).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))


GRAMS = {
    'cubic': [[4, 0, 0], [0, 4, 0], [0, 0, 4]],
    'tetragonal': [[4, 0, 0], [0, 4, 0], [0, 0, 7]],
    'ortho': [[3, 0, 0], [0, 4, 0], [0, 0, 6]],
    'fcc': [[2, 1, 1], [1, 2, 1], [1, 1, 2]],
    'bcc': [[3, -1, -1], [-1, 3, -1], [-1, -1, 3]],
    'hex': [[2, -1, 0], [-1, 2, 0], [0, 0, 5]],
    'rhombo': [[4, 1, 1], [1, 4, 1], [1, 1, 4]],
    'mono': [[5, 0, 1], [0, 4, 0], [1, 0, 6]],
    'tric': [[5, 1, -1], [1, 6, 2], [-1, 2, 7]],
}

SCS = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[1, 0, 0], [0, 1, 0], [0, 0, 3]],
    [[2, 0, 0], [0, 2, 0], [0, 0, 1]],
    [[2, 0, 0], [0, 2, 0], [0, 0, 2]],
    [[1, 0, 0], [0, 3, 0], [0, 0, 2]],
    [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
    [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
    [[1, 1, 0], [1, -1, 0], [0, 0, 1]],
    [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
    [[2, 1, 0], [0, 2, 0], [0, 0, 1]],
    [[2, 0, 0], [1, 2, 0], [0, 1, 1]],
    [[-2, 0, 0], [0, 1, 0], [0, 0, 2]],
    [[0, 2, 0], [1, 0, 0], [0, 0, 2]],
    [[1, 2, 0], [-1, 1, 0], [0, 0, 1]],
    [[2, 1, 1], [-1, 1, 1], [0, -1, 1]],
]


def cell_from_gram(g):
    """cell vectors (rows) whose Gram matrix is g, in a fixed skew frame"""
    ch = np.linalg.cholesky(np.array(g, dtype=float))
    # rotate so nothing is axis aligned
    a, b = 0.3, 0.7
    ra = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0],
                   [0, 0, 1]])
    rb = np.array([[1, 0, 0], [0, np.cos(b), -np.sin(b)],
                   [0, np.sin(b), np.cos(b)]])
    return ch @ ra @ rb


def supercell_origins(sc):
    """all lattice points inside the supercell (row convention
    R_super = sc . cell), home cell first"""
    sc = np.array(sc)
    n = abs(int(round(np.linalg.det(sc))))
    inv = np.linalg.inv(sc)
    out = []
    lim = int(np.abs(sc).sum()) + 1
    for p in itertools.product(range(-lim, lim + 1), repeat=3):
        f = np.array(p) @ inv
        if np.all(f > -1e-9) and np.all(f < 1 - 1e-9):
            out.append(list(p))
    assert len(out) == n, (sc, out)
    out.sort(key=lambda p: (p != [0, 0, 0], p))
    return out


def cell_index(R, orig, sc):
    """index of the cell equivalent to lattice vector R modulo supercell"""
    inv = np.linalg.inv(np.array(sc))
    for k, o in enumerate(orig):
        f = (np.array(R) - np.array(o)) @ inv
        if np.all(np.abs(f - np.rint(f)) < 1e-9):
            return k
    raise AssertionError


def random_fc(rng, orig, sc, n, mag=6, spread=True):
    """integer force constants with the exchange symmetry
    Phi(0i, lj)_ab = Phi(0j, -l i)_ba"""
    nc = len(orig)
    fc = rng.integers(-mag, mag + 1, size=(nc, 3*n, 3*n))
    out = np.zeros_like(fc)
    for k, o in enumerate(orig):
        kk = cell_index([-x for x in o], orig, sc)
        out[k] = fc[k] + fc[kk].T
    return out


def make_cases(seed, tag, count, max_atoms=2, max_cells=8, ms=(1, 2, 4),
               nq=4, grad=False, shift=False):
    rng = rng_for(seed, tag)
    names = list(GRAMS)
    cases = []
    scs = [s for s in SCS
           if abs(int(round(np.linalg.det(np.array(s))))) <= max_cells]
    for cid in range(count):
        gname = names[cid % len(names)]
        sc = scs[int(rng.integers(len(scs)))] if cid >= len(scs) \
            else scs[cid]
        orig = supercell_origins(sc)
        if shift and len(orig) > 1:
            # cell origins need not lie inside the supercell parallelepiped
            for k in range(1, len(orig)):
                t = rng.integers(-int(shift), int(shift) + 1, size=3)
                orig[k] = [int(x) for x in
                           np.array(orig[k]) + t @ np.array(sc)]
            perm = [0] + list(1 + rng.permutation(len(orig) - 1))
            orig = [orig[int(p)] for p in perm]
        n = int(rng.integers(1, max_atoms + 1))
        rden = int(rng.choice([2, 4, 6]))
        r = []
        while len(r) < n:
            p = [int(x) for x in rng.integers(0, rden, size=3)]
            if not any(p == x for x in r):
                r.append(p)
        m = int(rng.choice(ms))
        qs = [[int(x) for x in rng.integers(-2*m, 2*m + 1, size=3)]
              for _ in range(nq)]
        cases.append({'id': cid, 'name': gname, 'gram': GRAMS[gname], 'sc': sc,
                      'orig': orig, 'r': r, 'rden': rden,
                      'fc': random_fc(rng, orig, sc, n).tolist(),
                      'm': m, 'qs': qs, 'grad': grad})
    return cases


def zeta(m):
    return np.exp(2j*np.pi*np.arange(m)/m)


def dm_from_coeffs(co, den, m):
    """coefficients of the powers of the m-th root of unity -> complex"""
    return np.tensordot(zeta(m), np.array(co, dtype=float), axes=(0, 0))/den


_SPECIES = ['Si', 'O', 'Al', 'Na', 'Cl', 'Mg', 'H', 'Cu']


def make_crystal(case, masses_amu, pos_noise=None, cell_unit='bohr', scale=3.0,
                 types=None):
    from euphonic import Crystal, ureg
    cell = cell_from_gram(case['gram'])*scale
    r = np.array(case['r'], dtype=float)/case['rden']
    if pos_noise is not None:
        r = r + pos_noise
    n = len(r)
    if types is None:
        types = np.array([_SPECIES[i] for i in range(n)])
    return Crystal((cell*ureg('bohr')).to(cell_unit), r, np.array(types),
                   np.array(masses_amu, dtype=float)*ureg('amu'))


def make_fc(case, masses_amu, fc_unit='hartree/bohr**2', pos_noise=None,
            cell_unit='bohr', born=None, dielectric=None, types=None,
            fc_scale=1.0, crystal=None):
    from euphonic import ForceConstants, ureg
    cr = crystal or make_crystal(case, masses_amu, pos_noise, cell_unit,
                                 types=types)
    fc = (np.array(case['fc'], dtype=float)*fc_scale
          * ureg('hartree/bohr**2')).to(fc_unit)
    return ForceConstants(cr, fc, np.array(case['sc']),
                          np.array(case['orig']), born=born,
                          dielectric=dielectric)


def freqs_hartree(q):
    """signed frequencies of a Qpoint* object in hartree"""
    from euphonic import ureg
    return q.frequencies.to('meV').magnitude*ureg('meV').to(
        'hartree').magnitude


def reconstruct(modes, masses_me):
    """un-mass-weighted sum_v sign(w) w^2 e e^dagger, for each q-point"""
    w = freqs_hartree(modes)
    e = modes.eigenvectors
    nq, nb = w.shape
    e = e.reshape(nq, nb, nb)
    w2 = np.sign(w)*w**2
    d = np.einsum('qv,qvi,qvj->qij', w2, e, e.conj())
    sm = np.sqrt(np.repeat(masses_me, 3))
    return d*sm[:, None]*sm[None, :]


def unitarity_error(modes):
    e = modes.eigenvectors
    nq, nb = e.shape[:2]
    e = e.reshape(nq, nb, nb)
    g = np.einsum('qvi,qwi->qvw', e, e.conj())
    return np.abs(g - np.eye(nb)).max()


def masses_me(crystal):
    return crystal.atom_mass.to('m_e').magnitude
