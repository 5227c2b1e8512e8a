"""C04: acoustic sum rule corrections."""
import warnings
import numpy as np
from vf import lattice as L, polar

MASSES = [28.0855, 15.9994, 6.94]
AINV = ['SumRule', 'Identity', 'OnlyTranslations', 'Emit']


def covariant(rng, orig, sc, n, lam):
    """integer force constants whose row sums all equal lam"""
    fc = 2*L.random_fc(rng, orig, sc, n, mag=5)
    b = fc.sum(axis=0)
    for i in range(n):
        for j in range(i + 1, n):
            bl = b[3*i:3*i+3, 3*j:3*j+3]
            fc[0, 3*i:3*i+3, 3*j:3*j+3] += (bl.T - bl)//2
            fc[0, 3*j:3*j+3, 3*i:3*i+3] = fc[0, 3*i:3*i+3, 3*j:3*j+3].T
    for i in range(n):
        s = fc[:, 3*i:3*i+3].sum(axis=0).reshape(3, n, 3).sum(axis=1)
        fc[0, 3*i:3*i+3, 3*i:3*i+3] += lam - s
    return fc


def gen(ck):
    rng = L.rng_for(ck.seed, 'c04')
    cases = [c for c in L.make_cases(
        ck.seed, 'c04', ck.pick(80, 420), max_atoms=3, ms=(2, 3, 4), nq=4,
        shift=False, max_cells=6)]
    cases += L.make_cases(ck.seed, 'c04s', ck.pick(24, 120), max_atoms=2,
                          ms=(2, 4), nq=4, shift=True, max_cells=6)
    for k, c in enumerate(cases):
        c['id'] = k
        n = len(c['r'])
        lam = rng.integers(-4, 5, size=(3, 3))
        lam = lam + lam.T
        if k % 5 == 0:
            lam = lam*0
        c['qs'] = [[0, 0, 0], [c['m'], 0, -c['m']]] + c['qs'][2:]
        if k % 9 == 8 and n > 2:
            fc = np.zeros((len(c['orig']), 3*n, 3*n), dtype=int)
            fc[0] = np.diag(rng.permutation(np.arange(5, 5 + 3*n)))
            c['kind'] = 'onsite'
        elif k % 9 == 4:
            fc = np.array(c['fc'])
            c['kind'] = 'general'
        else:
            fc = covariant(rng, c['orig'], c['sc'], n, lam)
            c['kind'] = 'covariant'
        c['fc'] = fc.tolist()
    return cases


def modes(fc, q, asr, use_c, **kw):
    # a new object each time: warnings are only given when FCs are corrected
    fc = fc()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        o = fc.calculate_qpoint_phonon_modes(
            q, asr=asr, use_c=use_c, splitting=False, **kw)
    return o, [str(w.message) for w in ws
               if 'acoustic' in str(w.message)]


def run(ck):
    cases = gen(ck)
    r = ck.tlc('Asr', cases=cases, invariants=AINV)
    asr = {e['id']: e for e in r.emitted}
    base = ck.tlc('Interp', cases=cases, invariants=[
        'ImagesExist', 'Hermitian', 'GammaSum', 'Emit'])
    base = {e['id']: e for e in base.emitted}
    corr = [dict(c, fc=asr[c['id']]['fc']) for c in cases
            if asr[c['id']]['found']]
    cr = ck.tlc('Interp', cases=corr, invariants=[
        'ImagesExist', 'Hermitian', 'GammaSum', 'Emit'])
    cr = {e['id']: e for e in cr.emitted}
    kinds = {}
    for c in cases:
        k = c['id']
        if base[k]['amb']:
            continue
        a = asr[k]
        rng = L.rng_for(ck.seed, 'c04r', k)
        n = len(c['r'])
        q = np.array(c['qs'])/c['m']
        d0 = np.array([L.dm_from_coeffs(d, base[k]['den'], c['m'])
                       for d in base[k]['dm']])
        exp = {None: d0}
        if a['found']:
            exp['realspace'] = np.array(
                [L.dm_from_coeffs(d, cr[k]['den'], c['m'])
                 for d in cr[k]['dm']])/a['n']
            exp['reciprocal'] = d0 - np.tile(
                np.array(a['lam'], dtype=float)/n, (n, n))
        elif a['notfound']:
            exp['realspace'] = exp['reciprocal'] = d0
        elif c['kind'] != 'general':
            raise AssertionError(c)
        pol = n == 2 and bool(k % 2) and c['kind'] == 'covariant'
        from euphonic import ureg
        born = polar.born_set(rng, n)*ureg('e') if pol else None
        diel = polar.dielectric_set(rng)*ureg('e**2/(bohr*hartree)') \
            if pol else None
        m = np.array(MASSES)[rng.permutation(3)[:n]]
        if c['kind'] == 'general':
            m = m*0 + 12.
        unit = ['hartree/bohr**2', 'eV/angstrom**2'][k % 2]
        def fc():
            return L.make_fc(c, m, fc_unit=unit, born=born, dielectric=diel)
        ms = L.masses_me(fc().crystal)
        kinds[c['kind'] + ('/polar' if pol else '')] = kinds.get(
            c['kind'] + ('/polar' if pol else ''), 0) + 1
        for use_c in (True, False):
            o0, w0 = modes(fc, q, None, use_c)
            r0 = L.reconstruct(o0, ms)
            for opt in (None, 'realspace', 'reciprocal'):
                def one():
                    if c['kind'] == 'general':
                        return general(fc, ms, q, c, opt, use_c, o0, r0)
                    o, ws = modes(fc, q, opt, use_c)
                    rec = L.reconstruct(o, ms)
                    if pol:      # the dipole part itself is acoustic
                        rec = rec - r0 + d0
                    sc = max(np.abs(exp[opt]).max(), np.abs(r0).max(), 1.)
                    err = np.abs(rec - exp[opt]).max(axis=(1, 2))
                    if err.max() > 1e-6*sc:
                        b = int(err.argmax())
                        return (f'dynamical matrix at {c["qs"][b]}/{c["m"]} '
                                f'differs by {err[b]:.3g} (scale {sc:.3g})')
                    if opt and a['found']:
                        f = L.freqs_hartree(o)
                        n0 = np.sort(np.abs(f[:2]), axis=1)[:, :3]**2
                        if n0.max() > 1e-7*sc/ms.min():
                            return 'acoustic frequencies at gamma not zero'
                    want = bool(opt and a['notfound'])
                    if bool(ws) != want:
                        return (f'warnings {ws}' if ws else
                                'no warning although no acoustic modes '
                                'can be identified')
                ck.replay(f'{c["name"]} sc={c["sc"]} n={n} {c["kind"]} '
                          f'asr={opt} polar={pol} use_c={use_c}', one, case=c)
        if a['found'] and k < 6:
            ck.sample({'sc': c['sc'], 'lam': a['lam'], 'n': a['n'],
                       'corrected00': a['fc'][0][0][:3]})
    ck.notes['kinds'] = kinds
    ck.assumptions += ['exact expectation where all row sums agree (or no '
                       'mode can be acoustic); otherwise relation to the '
                       'modes without correction, for equal masses']


def general(fc, ms, q, c, opt, use_c, o0, r0):
    """arbitrary breaking, equal masses: the correction at gamma is minus the
    projection onto the three modes with the largest net displacement"""
    if opt is None:
        return None
    n = len(c['r'])
    e = o0.eigenvectors[0]
    com = (np.abs(e.sum(axis=1))**2).sum(axis=1)
    order = np.argsort(com)
    f = L.freqs_hartree(o0)[0]
    w2 = np.sign(f)*f**2*ms[0]
    # the realspace criterion counts the supercell's atoms: same ratio
    found = (com > 0.5*n).sum() >= 3
    if np.abs(com - 0.5*n).min() < 1e-6:
        return None
    if len(com) > 3 and com[order[-3]] - com[order[-4]] < 1e-6:
        return None
    gaps = np.diff(np.sort(w2))
    if gaps.size and gaps.min() < 1e-6*np.abs(w2).max():
        return None
    o, ws = modes(fc, q, opt, use_c)
    rec = L.reconstruct(o, ms)
    sc = np.abs(r0).max()
    if not found:
        if not ws:
            return 'no warning although fewer than 3 acoustic modes'
        if np.abs(rec - r0).max() > 1e-9*sc:
            return 'changed although fewer than 3 acoustic modes'
        return None
    if ws:
        return f'warning {ws} although 3 acoustic modes exist'
    corr = np.zeros((3*n, 3*n), dtype=complex)
    for i in order[-3:]:
        v = e[i].reshape(-1)
        corr -= w2[i]*np.outer(v, v.conj())
    g = (np.abs(q - np.rint(q)).max(axis=1) < 1e-12)
    # gamma (and equivalent) always; other commensurate points: realspace none
    comm = np.abs(q @ np.array(c['sc']).T
                  - np.rint(q @ np.array(c['sc']).T)).max(axis=1) < 1e-12
    for k in range(len(q)):
        if opt == 'reciprocal' or g[k]:
            x = r0[k] + corr
        elif comm[k]:
            x = r0[k]
        else:
            continue
        if np.abs(rec[k] - x).max() > 1e-6*sc:
            return f'correction at {c["qs"][k]}/{c["m"]} is not the projection'
