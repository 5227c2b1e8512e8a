"""C25: crystal geometry and symmetry."""
import numpy as np
from vf import lattice as L

UNITS = ['bohr', 'angstrom', 'nm', 'pm']
NAMES = ['Si', 'O', 'Na', 'Xx', '1', 'a b']
SC = 2.5        # bohr


def gen(ck):
    rng = L.rng_for(ck.seed, 'c25')
    out = []
    names = list(L.GRAMS)
    while len(out) < ck.pick(260, 2500):
        k = len(out)
        na = [1, 2, 2, 3, 4, 5, 6][k % 7]
        rden = [2, 4, 3, 6, 8, 12][int(rng.integers(6))]
        symm = k % 5 != 4
        if symm:
            g = L.GRAMS[names[k % len(names)]]
        else:
            m = rng.integers(-2, 3, size=(3, 3))
            if round(np.linalg.det(m)) == 0:
                continue
            g = (m @ m.T).tolist()
        R = []
        tries = 0
        while len(R) < na and tries < 60:
            tries += 1
            r = rng.integers(-rden, 2*rden, size=3)
            if k % 3 == 0:      # special positions
                r = rng.integers(-1, 3, size=3)*(rden//2 if rden % 2 == 0 else rden)
            if R and k % 2 and tries % 3 == 0:  # inverse of the last
                r = -np.array(R[-1]) + (rden//2 if k % 4 == 1 else 0)
            r = [int(x) for x in r]
            if all(((np.array(r) - x) % rden).any() for x in R):
                R.append(r)
        if len(R) < na:
            continue
        sp = [int(x) for x in rng.integers(0, [1, 2, 3, 6][k % 4], size=na)]
        s = []
        for _ in range(3):
            # ratios of lengths up to about 12
            num = int(rng.choice([1, 1, 2, 3, 5, 8]))
            den = int(rng.choice([1, 2, 4, 9, 20, 50, 100]))
            s.append([num, den])
        # slightly more and less than a whole part of a reciprocal vector
        gi = np.array(g)
        det = round(np.linalg.det(gi))
        dual = np.rint(np.linalg.inv(gi)*det).astype(int).diagonal()
        n, i = int(rng.integers(1, 4)), int(rng.integers(3))
        big = int(1e9/(dual.max()*det*(n + 2)**2*max(1, dual.max()/dual[i])))
        for d in (-1, 1):
            if big > 50:
                s.append([int(dual[i])*big + d, int(det)*n*n*big])
        out.append({'id': k, 'gram': [[int(x) for x in y] for y in g], 'R': R,
                    'rden': rden, 'sp': sp, 'spacings': s, 'symm': symm,
                    'left': bool(rng.integers(2)), 'unit': UNITS[int(rng.integers(4))],
                    'noise': bool(rng.integers(2))})
    return out


def one(ck, c, e):
    from euphonic import Crystal, ureg, Quantity
    rng = L.rng_for(ck.seed, 'c25x', c['id'])
    cell = L.cell_from_gram(c['gram'])*SC
    if c['left']:
        cell = cell*[1, 1, -1]
    u = c['unit']
    names = np.array(NAMES)[rng.permutation(6)]
    pos = np.array(c['R'])/c['rden']
    # distances far below the tolerance
    tol = [None, Quantity(1e-3, 'bohr'), Quantity(2e-12, 'm'),
           Quantity(.01, 'angstrom')][c['id'] % 4]
    t = (Quantity(1e-5, 'angstrom') if tol is None else tol).to('bohr').magnitude
    if c['noise']:
        d = rng.uniform(-1, 1, pos.shape)*t/200
        pos = pos + d @ np.linalg.inv(cell)
    cr = Crystal(Quantity(cell, 'bohr').to(u), pos,
                 np.array([names[i] for i in c['sp']]),
                 Quantity(rng.uniform(1, 50, len(pos)), 'amu'))
    # dual cell
    rec = cr.reciprocal_cell()
    cv = cr.cell_vectors
    x = (cv @ rec.T).to('dimensionless').magnitude/(2*np.pi)
    if not np.allclose(x, np.eye(3), atol=1e-12*np.abs(
            np.linalg.norm(cell, axis=1)).max()**2):
        return f'reciprocal cell is not dual: {x.tolist()}'
    b = rec.to('1/bohr').magnitude*SC/(2*np.pi)
    w = np.array(e['dual'])/e['det']
    if not np.allclose(b @ b.T, w, atol=1e-11*np.abs(w).max()):
        return f'metric of the reciprocal cell {b @ b.T} not {w}'
    v = cr.cell_volume().to('bohr**3').magnitude
    if abs(v - SC**3*np.sqrt(e['det'])) > 1e-11*v:
        return f'volume {v} not {SC**3*np.sqrt(e["det"])}'
    # grids
    for k, (s, n, bd) in enumerate(zip(c['spacings'], e['grid'], e['border'])):
        q = Quantity(2*np.pi*np.sqrt(s[0]/s[1])/SC, '1/bohr').to(
            ['1/bohr', '1/angstrom', '1/nm'][k % 3])
        got = cr.get_mp_grid_spec(q)
        if len(got) != 3 or any(g != m and not (z and g == m + 1)
                                for g, m, z in zip(got, n, bd)):
            return f'grid {got} not {n} for spacing {q}'
        if not all(isinstance(g, (int, np.integer)) for g in got):
            return f'grid {got}'
    # the default is 0.1/angstrom
    g = cr.get_mp_grid_spec()
    h = np.linalg.norm(cr.reciprocal_cell().to('1/angstrom').magnitude, axis=1)/.1
    if any(abs(y - round(y)) > 1e-9 and z != np.ceil(y) for z, y in zip(g, h)):
        return f'default grid {g} not {h}'
    # species
    idx = cr.get_species_idx()
    want = [(str(names[x['sp']]), [a - 1 for a in x['at']]) for x in e['groups']]
    got = [(kk, np.asarray(a).tolist()) for kk, a in idx.items()]
    if got != want:
        return f'species {got} not {want}'
    lat, p, num = cr.to_spglib_cell()
    if not np.allclose(lat, cr.cell_vectors.magnitude, rtol=1e-13) or \
            not np.array_equal(p, cr.atom_r):
        return 'spglib cell differs'
    if any((num[i] == num[j]) != (c['sp'][i] == c['sp'][j])
           for i in range(len(num)) for j in range(len(num))):
        return f'spglib numbers {num} for {c["sp"]}'
    if not c['symm']:
        return None
    W, T, P = cr.get_symmetry_equivalent_atoms() if tol is None else \
        cr.get_symmetry_equivalent_atoms(tol=tol)
    got = {}
    for r, tt, pp in zip(W, T, P):
        n = tt*c['rden']
        if np.abs(n - np.rint(n)).max() > .01:
            return f'translation {tt} is not one of the crystal'
        key = (tuple(r.ravel().tolist()),
               tuple(int(y) for y in np.rint(n).astype(int) % c['rden']))
        if key in got:
            return f'operation {key} twice'
        got[key] = [int(y) for y in pp]
    want = {(tuple(np.array(o['w']).ravel().tolist()), tuple(o['t'])):
            [y - 1 for y in o['p']] for o in e['ops']}
    if set(got) != set(want):
        return (f'{len(got)} operations not {len(want)}: missing '
                f'{list(set(want) - set(got))[:2]} extra {list(set(got) - set(want))[:2]}')
    for k in want:
        if want[k] != got[k]:
            return f'operation {k} maps atoms to {got[k]} not {want[k]}'
    return None


def run(ck):
    cases = gen(ck)
    r = ck.tlc('Geometry', cases=cases, invariants=[
        'IsDual', 'Minimal', 'Partition', 'Group', 'Permutes', 'Emit'])
    res = {e['id']: e for e in r.emitted}
    for c in cases:
        ck.replay(f'gram {c["gram"]} atoms {c["R"]}/{c["rden"]} {c["sp"]} '
                  f'unit {c["unit"]} left={c["left"]}',
                  lambda: one(ck, c, res[c['id']]), case=c)
        if c['id'] < 2:
            ck.sample(c)
    ck.notes['symmetry_orders'] = sorted({len(e['ops']) for e in res.values()})
    ck.assumptions += ['cells for symmetry queries are reduced enough that rotations '
                       'have entries from -2 to 2', 'spglib finds all operations',
                       'cells in metres are not used (known finding of C19)']
