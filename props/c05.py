"""C05: gamma insertion and LO-TO splitting along paths of q-points."""
import itertools
import numpy as np
from vf import lattice as L

M = 4
VECS = [[0, 0, 0], [4, 0, -4], [1, 2, 0], [2, -1, 1]]
INV = ['PathKept', 'WeightKept', 'BothSides', 'Rank1', 'OnlyGamma', 'Emit']


def model(ck, i):
    """force constants whose Born charges and dielectric are integer in the
    reciprocal basis"""
    from euphonic import ureg
    rng = L.rng_for(ck.seed, 'c05', i)
    n = [2, 1, 2, 3][i % 4]
    c = [c for c in L.make_cases(ck.seed, f'c05{i}', 40, max_atoms=n)
         if len(c['r']) == n and len(c['orig']) <= 4][i % 5]
    y = rng.integers(-2, 3, size=(n, 3, 3))
    if n > 1:
        y[-1] = -y[:-1].sum(axis=0)
    a = rng.integers(-1, 2, size=(3, 3))
    e = a @ a.T + np.diag(rng.integers(2, 5, size=3))
    scale = [3.0, 5.5][i % 2]
    cell = L.cell_from_gram(c['gram'])*scale
    born = np.einsum('kij,jl->kil', y, cell)
    diel = cell.T @ e @ cell
    masses = np.array([28.0855, 15.9994, 6.94])[:n]
    cr = L.make_crystal(c, masses, scale=scale,
                        cell_unit=['bohr', 'angstrom'][i % 2])
    assert np.allclose(cr._cell_vectors, cell)
    fc = L.make_fc(c, masses, crystal=cr, fc_scale=0.1,
                   born=(born*ureg('e')).to(['e', 'coulomb'][i % 2]),
                   dielectric=diel*ureg('e**2/(bohr*hartree)'))
    fac = 4*np.pi/abs(np.linalg.det(cell))
    return {'y': y.tolist(), 'e': e.tolist()}, fc, fac


def run(ck):
    rng = L.rng_for(ck.seed, 'c05')
    nm = ck.pick(4, 8)
    models = [model(ck, i) for i in range(nm)]
    paths = []
    for n in range(1, ck.pick(4, 5)):
        for x in itertools.product(VECS, repeat=n):
            paths.append(list(x))
    for n, cnt in ((4, ck.pick(40, 200)), (5, ck.pick(40, 200)),
                   (6, ck.pick(30, 200)), (9, ck.pick(20, 100)),
                   (25, ck.pick(8, 60))):
        for _ in range(cnt):
            paths.append([VECS[int(i)] for i in rng.choice(
                4, p=[.35, .15, .25, .25], size=n)])
    recs = [{'model': 1 + i % nm, 'qs': qs, 'ws':
             [int(x) for x in rng.integers(1, 6, size=len(qs))]
             if i % 2 else []} for i, qs in enumerate(paths)]
    r = ck.tlc('GammaPath', constants=dict(M=M), invariants=INV,
               cases={'paths': recs, 'models': [m[0] for m in models]})
    assert len(r.emitted) == 2*len(recs)
    r.emitted.sort(key=lambda e: (e['p'], e['insert']))
    for n, e in enumerate(r.emitted):
        rec = recs[e['p'] - 1]
        _, fc, fac = models[rec['model'] - 1]
        q = np.array(rec['qs'], dtype=float)/M
        w = np.array(rec['ws'], dtype=float) if rec['ws'] else None
        opts = dict(use_c=bool(n % 2) if n % 5 else None, reduce_qpts=bool(
            rng.integers(3)), asr=[None, 'realspace', 'reciprocal'][
                int(rng.integers(3))], n_threads=1 + n % 4)
        if opts['use_c'] is False:
            opts.pop('n_threads')
        nodip = n % 17 == 3

        def one():
            qq, ww = q.copy(), None if w is None else w.copy()
            if nodip:      # without dipole correction nothing is inserted
                o = fc.calculate_qpoint_phonon_modes(
                    qq, weights=ww, insert_gamma=e['insert'], dipole=False,
                    splitting=True, **opts)
                b = fc.calculate_qpoint_phonon_modes(
                    qq, weights=ww, dipole=False, splitting=False, **opts)
                if not (np.array_equal(o.qpts, q) and np.allclose(
                        o.frequencies.magnitude, b.frequencies.magnitude,
                        atol=1e-5)):
                    return 'splitting although dipole=False'
                return None
            o = fc.calculate_qpoint_phonon_modes(
                qq, weights=ww, insert_gamma=e['insert'], splitting=True,
                **opts)
            if not np.array_equal(qq, q) or (
                    w is not None and not np.array_equal(ww, w)):
                return 'input changed'
            xq = np.array([p['q'] for p in e['path']])/M
            if o.qpts.shape != xq.shape or not np.array_equal(o.qpts, xq):
                return f'q-points {o.qpts.tolist()} instead of {xq.tolist()}'
            xw = np.array([p['w'] for p in e['path']])/2. \
                if w is not None else np.full(len(xq), 1/len(xq))
            if not np.allclose(o.weights, xw, rtol=1e-12):
                return f'weights {o.weights} instead of {xw}'
            b = fc.calculate_qpoint_phonon_modes(
                xq, splitting=False, **opts)
            ms = L.masses_me(fc.crystal)
            d1, d0 = L.reconstruct(o, ms), L.reconstruct(b, ms)
            sc = np.abs(d0).max()
            for k, x in enumerate(e['res']):
                t = np.array(x['num'])*fac/x['den'] if x['num'] else 0.
                s = max(sc, np.abs(t).max())
                if np.abs(d1[k] - d0[k] - t).max() > 1e-8*s:
                    return (f'non-analytic term at point {k} '
                            f'({e["path"][k]["q"]}) is not that of direction '
                            f'{x["d"]}: error '
                            f'{np.abs(d1[k] - d0[k] - t).max()/s:.3g}')
        ck.replay(f'path {rec["qs"][:8]} weights {rec["ws"][:8]} '
                  f'insert={e["insert"]} {opts}', one, case={**rec, **e})
        if 400 < n < 403:
            ck.sample(e)
    ck.assumptions += ['every path of up to 3 (thorough 4) points over '
                       '{gamma, G, two others}; longer ones are seeded',
                       'the term is measured as the difference to a '
                       'calculation without splitting']
