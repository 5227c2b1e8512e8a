"""C01: Fourier interpolation gives the dynamical matrix of the model."""
import numpy as np
from vf import lattice as L

INV = ['ImagesExist', 'Hermitian', 'GammaSum', 'Emit']
UNITS = [('hartree/bohr**2', 'bohr'), ('eV/angstrom**2', 'angstrom'),
         ('meV/bohr**2', 'nm'), ('mRy/angstrom**2', 'bohr'),
         ('hartree/nm**2', 'angstrom')]
MASSES = [28.0855, 15.9994, 1.00794, 207.2]


def run(ck):
    n = ck.pick(64, 420)
    cases = L.make_cases(ck.seed, 'c01', n, ms=(1, 2, 3, 4, 5, 6, 8),
                         shift=False)
    # cell origins outside the home supercell, in any order; three atoms
    more = L.make_cases(ck.seed, 'c01s', n//2, ms=(2, 4, 7), shift=True)
    big = L.make_cases(ck.seed, 'c01b', ck.pick(6, 40), max_atoms=3, nq=3,
                       ms=(2, 4))
    # ... and far away
    far = L.make_cases(ck.seed, 'c01f', ck.pick(12, 80), nq=2, ms=(3, 5), shift=3)
    cases = cases + more + big + far
    # atoms half way between others: ties on every face
    rng = L.rng_for(ck.seed, 'c01t')
    ties = L.make_cases(ck.seed, 'c01t', ck.pick(40, 200), nq=3, ms=(3, 5))
    for c in ties:
        c['rden'] = 2
        c['r'] = [[int(x) for x in p] for p in
                  [[0, 0, 0], rng.permutation([[0, 0, 1], [0, 1, 1],
                                               [1, 1, 1]][rng.integers(3)])]]
        c['fc'] = L.random_fc(rng, c['orig'], c['sc'], 2).tolist()
        c['tie'] = True
    cases += ties
    for i, c in enumerate(cases):
        c['id'] = i
    r = ck.tlc('Interp', cases=cases, invariants=INV)
    assert len(r.emitted) == len(cases), (len(r.emitted), len(cases))
    amb = 0
    multi = 0
    for e in sorted(r.emitted, key=lambda e: e['id']):
        if e['amb']:
            amb += 1
            continue
        c = cases[e['id']]
        rng = L.rng_for(ck.seed, 'c01r', e['id'])
        multi += max(max(max(y) for y in x) for x in e['nim']) > 1
        na = len(c['r'])
        m = np.array(MASSES)[rng.permutation(4)[:na]]
        exp = np.array([L.dm_from_coeffs(d, e['den'], c['m'])
                        for d in e['dm']])
        unit, cunit = UNITS[int(rng.integers(len(UNITS)))]
        # ties which only hold to within the tolerance
        noise = (rng.uniform(.5, 1, size=(na, 3))
                 * rng.choice([-1, 1], size=(na, 3))
                 * (1.2e-4 if c.get('tie') else
                    rng.choice([1e-9, 1e-5, 1.2e-4]))) \
            if rng.integers(2) == 0 or c.get('tie') else None
        scale = float(rng.choice([1., 1e-3]))
        q = np.array(c['qs'])/c['m']
        w = rng.integers(1, 5, size=len(q)).astype(float) \
            if rng.integers(2) else None
        fc = L.make_fc(c, m, fc_unit=unit, cell_unit=cunit, pos_noise=noise,
                       fc_scale=scale)
        for use_c in (True, False):
            def one():
                before = q.copy()
                ph = fc.calculate_qpoint_phonon_modes(
                    q, weights=w, use_c=use_c)
                if not np.array_equal(q, before):
                    return 'input q-points modified'
                if not (ph.qpts.shape == q.shape
                        and np.array_equal(ph.qpts, q)):
                    return f'q-points {ph.qpts} instead of {q}'
                ew = np.full(len(q), 1/len(q)) if w is None else w
                if not np.allclose(ph.weights, ew, rtol=1e-12):
                    return f'weights {ph.weights} instead of {ew}'
                if L.unitarity_error(ph) > 1e-9:
                    return 'eigenvectors are not orthonormal'
                fr = L.freqs_hartree(ph)
                if (np.diff(fr, axis=1) < 0).any():
                    return 'frequencies not in ascending order'
                rec = L.reconstruct(ph, L.masses_me(fc.crystal))
                ref = exp*scale
                tol = 1e-9*max(np.abs(ref).max(), scale)
                err = np.abs(rec - ref).max(axis=(1, 2))
                if err.max() > tol:
                    k = int(err.argmax())
                    return (f'dynamical matrix at q={c["qs"][k]}/{c["m"]} '
                            f'differs by {err[k]:.3g} of {np.abs(ref[k]).max():.3g}')
                fq = fc.calculate_qpoint_frequencies(q, use_c=use_c)
                d = np.abs(L.freqs_hartree(fq)**2 - fr**2).max()
                mm = L.masses_me(fc.crystal).min()
                if d > 1e-9*max(np.abs(ref).max(), scale)/mm:
                    return 'frequencies-only calculation differs'
            ck.replay(f'{c["name"]} sc={c["sc"]} use_c={use_c}', one, case=c)
        ck.sample({'lattice': c['name'], 'sc': c['sc'], 'atoms': c['r'],
                   'q': [c['qs'][0], c['m']],
                   'D00_coeffs': [co[0][0] for co in e['dm'][0]],
                   'den': e['den']})
    ck.notes['cases_skipped_near_tie'] = amb
    ck.notes['cases_with_shared_images'] = multi
    ck.assumptions += [
        'force constants obey the exchange symmetry Phi(0i,lj)=Phi(0j,-li)^T',
        'no near-tie between image distances outside the 0.1% tolerance',
        'nearest images lie at most two supercells away']
