"""C07: mode gradients are derivatives of the interpolated frequencies."""
import numpy as np
from vf import lattice as L

UNITS = [('hartree/bohr**2', 'bohr'), ('eV/angstrom**2', 'angstrom'),
         ('meV/bohr**2', 'nm'), ('mRy/angstrom**2', 'bohr')]
MASSES = [28.0855, 15.9994, 1.00794, 207.2]


def run(ck):
    from euphonic import ureg
    cases = L.make_cases(ck.seed, 'c07', ck.pick(36, 260), ms=(1, 2, 3, 4, 5, 6),
                         grad=True, nq=4)
    cases += L.make_cases(ck.seed, 'c07s', ck.pick(14, 120), ms=(2, 4, 5),
                          grad=True, nq=4, shift=True)
    for i, c in enumerate(cases):
        c['id'] = i
    r = ck.tlc('Interp', cases=cases, invariants=[
        'ImagesExist', 'Hermitian', 'GammaSum', 'Emit'])
    multi = amb = 0
    for e in sorted(r.emitted, key=lambda e: e['id']):
        if e['amb']:
            amb += 1
            continue
        c = cases[e['id']]
        rng = L.rng_for(ck.seed, 'c07r', e['id'])
        na = len(c['r'])
        m = np.array(MASSES)[rng.permutation(4)[:na]]
        unit, cunit = UNITS[int(rng.integers(len(UNITS)))]
        fc = L.make_fc(c, m, fc_unit=unit, cell_unit=cunit)
        fc0 = L.make_fc(c, m, fc_unit=unit, cell_unit=cunit)
        cell = fc.crystal.cell_vectors.to('bohr').magnitude
        q = np.array(c['qs'])/c['m']
        ms = L.masses_me(fc.crystal)
        mw = 1/np.sqrt(np.repeat(ms, 3))
        gr = np.array([[L.dm_from_coeffs(a, e['den'], c['m']) for a in x]
                       for x in e['grad']])          # [q][axis][x][y]
        gc = 1j*np.einsum('qaxy,ak->qkxy', gr, cell)*mw[:, None]*mw
        for use_c in (True, False):
            opts = dict(use_c=use_c, reduce_qpts=bool(rng.integers(2)))

            def one():
                o, g = fc.calculate_qpoint_phonon_modes(
                    q, return_mode_gradients=True, **opts)
                o2, g2 = fc.calculate_qpoint_frequencies(
                    q, return_mode_gradients=True, **opts)
                xu = (1*ureg('meV')*ureg(cunit)).units
                if g.units != xu:
                    return f'units {g.units} instead of {xu}'
                if g.shape != o.frequencies.shape + (3,):
                    return f'shape {g.shape}'
                # the modes themselves are those without gradients
                p = fc0.calculate_qpoint_phonon_modes(q, **opts)
                if np.abs(p.frequencies.magnitude - o.frequencies.magnitude
                          ).max() > 1e-6*np.abs(p.frequencies.magnitude
                                                ).max() + 1e-4:
                    return 'requesting gradients changes the frequencies'
                w = L.freqs_hartree(o)
                ev = o.eigenvectors.reshape(len(q), 3*na, 3*na)
                x = np.einsum('qvx,qkxy,qvy->qvk', ev.conj(), gc, ev).real
                for gg, ww, what in ((g, w, 'modes'),
                                     (g2, L.freqs_hartree(o2), 'freqs')):
                    y = 2*ww[:, :, None]*gg.to('hartree*bohr').magnitude
                    sc = max(np.abs(gc).max(), (np.abs(w).max()**2))
                    if what == 'freqs':
                        # bases of degenerate modes may differ
                        w2 = np.sign(w)*w**2
                        gap = np.full(w.shape, np.inf)
                        gap[:, 1:] = np.diff(w2, axis=1)
                        gap[:, :-1] = np.minimum(gap[:, :-1],
                                                 np.diff(w2, axis=1))
                        ok = gap > 1e-5*np.abs(w2).max()
                    else:
                        ok = np.ones(w.shape, bool)
                    d = np.abs(y - x)[ok]
                    if d.size and not d.max() < 1e-8*sc:
                        return (f'gradients ({what}) differ from the '
                                f'derivative by {d.max()/sc:.3g}')
            ck.replay(f'{c["name"]} sc={c["sc"]} {opts} unit={cunit}', one,
                      case=c)
        if e['id'] < 2:
            ck.sample({'sc': c['sc'], 'q': c['qs'][0], 'm': c['m'],
                       'grad00': [k[0][0] for k in e['grad'][0][0]]})
    ck.notes['skipped_near_tie'] = amb
    widths(ck)
    ck.assumptions += ['non-polar force constants with the exchange symmetry']


def widths(ck):
    from euphonic import ureg
    from euphonic.util import mode_gradients_to_widths
    quads = [[0, 0, 5], [1, 2, 2], [-2, 3, 6], [4, -4, 7], [0, 0, 0],
             [3, 4, 0], [6, -6, -3]]
    r = ck.tlc('Widths', constants=dict(Ks=[2, 3, 4, 6, 10], Vols=[
        1, 2, 8, 27, 100, 12], Quads=quads, MaxSteps=ck.pick(2, 4)),
        invariants=['Cube', 'Emit'], properties=['Linear'])
    seen = {}
    for e in r.emitted:
        seen.setdefault((e['k'], e['v']), []).append(e)
    for n, ((k, v), es) in enumerate(sorted(seen.items())):
        nq = es[0]['nq']
        rng = L.rng_for(ck.seed, 'widths', k, v)
        es = sorted(es, key=repr)
        g = np.zeros((nq, 2, 3))
        x = np.zeros((nq, 2))
        for i in range(nq):
            for j in range(2):
                e = es[int(rng.integers(len(es)))]
                g[i, j] = e['g']
                x[i, j] = e['w'][0]/e['w'][1]
        cell = L.cell_from_gram([[4, 1, 0], [1, 3, 1], [0, 1, 5]])
        cell *= np.cbrt(v/abs(np.linalg.det(cell)))
        if n % 2:
            cell = cell[[1, 0, 2]]      # left-handed description
        for gu, lu in (('hartree', 'bohr'), ('meV', 'angstrom'),
                       ('meV', 'bohr'), ('1/cm', 'nm')):
            def one():
                gq = (g*ureg('hartree*bohr')).to(
                    f'{gu}*{lu}', 'reciprocal_spectroscopy') \
                    if gu != '1/cm' else (g*ureg('hartree*bohr')).to(
                        f'Ry*{lu}')
                cq = (cell*ureg('bohr')).to(lu)
                a = mode_gradients_to_widths(gq, cq)
                b = mode_gradients_to_widths(
                    np.linalg.norm(gq.magnitude, axis=2)*gq.units, cq)
                for y in (a, b):
                    if not np.allclose(y.to('hartree').magnitude, x,
                                       rtol=1e-9, atol=1e-12):
                        return 'widths differ'
                    if y.shape != x.shape:
                        return f'shape {y.shape}'
            ck.replay(f'widths nq={nq} V={v} units {gu}*{lu}', one,
                      case=es[:3])
