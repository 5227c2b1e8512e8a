"""C03: periodicity in q and time-reversal symmetry of the interpolation."""
import numpy as np
from vf import lattice as L, polar

SHIFTS = [[1, 0, 0], [0, -1, 1], [3, 2, -2]]


def run(ck):
    rng = L.rng_for(ck.seed, 'c03')
    emitted = []
    for m in ck.pick((2, 12), (2, 4, 7, 12, 60)):
        starts = [[0, 0, 0], [m, 0, 0], [m//2, 0, 0], [m//2, m//2, 0],
                  [-(m//2), m//2, m//2], [1, 0, 0], [m - 1, 1, -1]]
        starts += [[int(x) for x in rng.integers(-2*m, 2*m + 1, size=3)]
                   for _ in range(ck.pick(3, 8))]
        r = ck.tlc('Orbits', cases=starts, invariants=[
            'OnStar', 'RealAtTrim', 'Emit'],
            constants=dict(M=m, Depth=ck.pick(2, 3), Shifts=SHIFTS))
        emitted += r.emitted
    emitted.sort(key=lambda e: repr(e))
    rng.shuffle(emitted)
    models = []
    for i in range(ck.pick(4, 10)):
        models.append(polar.make(ck.seed, f'c03{i}', n_atoms=1 + i % 3 if i > 1
                                 else 2, polar=i % 2 == 0, cells=(1, 2, 3, 4, 6))[1])
    optsets = [dict(), dict(asr='realspace'), dict(asr='reciprocal'),
               dict(dipole=False), dict(dipole_parameter=0.6)]
    n_trim = 0
    for n, e in enumerate(emitted[:ck.pick(700, 9000)]):
        fc = models[n % len(models)]
        opts = dict(optsets[int(rng.integers(len(optsets)))])
        if fc.born is None:
            opts.pop('dipole_parameter', None)
            opts.pop('dipole', None)
        opts['use_c'] = bool(n % 3)
        opts['reduce_qpts'] = bool(rng.integers(2))
        grad = bool(rng.integers(2))
        n_trim += e['trim']
        q = np.array([w['q'] for w in e['walk']])/e['m']
        conj = [w['conj'] for w in e['walk']]

        def one():
            o = fc.calculate_qpoint_phonon_modes(
                q, splitting=False, return_mode_gradients=grad, **opts)
            g = None
            if grad:
                o, g = o
            w = L.freqs_hartree(o)
            w2 = np.sign(w)*w**2
            sc = max(np.abs(w2).max(), 1e-12)
            d = L.reconstruct(o, L.masses_me(fc.crystal))
            ds = max(np.abs(d).max(), 1e-12)
            if L.unitarity_error(o) > 1e-8:
                return 'eigenvectors are not orthonormal'
            if e['trim'] and np.abs(d.imag).max() > 1e-9*ds:
                return 'dynamical matrix not real where q = -q + G'
            for k in range(1, len(q)):
                if np.abs(w2[k] - w2[0]).max() > 1e-9*sc:
                    return f'frequencies at {q[k]} are not those at {q[0]}'
                x = d[k].conj() if conj[k] else d[k]
                if np.abs(x - d[0]).max() > 1e-9*ds:
                    return f'eigenvectors at {q[k]} do not match {q[0]}'
            if g is not None:
                gap = np.full(w2.shape[1], np.inf)
                gap[1:] = np.minimum(gap[1:], np.diff(w2[0]))
                gap[:-1] = np.minimum(gap[:-1], np.diff(w2[0]))
                ok = (gap > 1e-4*sc) & (np.abs(w2[0]) > 1e-4*sc)
                gw = g.magnitude*o.frequencies.magnitude[:, :, None]
                s = max(np.abs(gw[:, ok]).max() if ok.any() else 0,
                        np.abs(o.frequencies.magnitude).max()**2)
                for k in range(len(q)):
                    sg = -1 if conj[k] else 1
                    if ok.any() and np.abs(sg*gw[k] - gw[0])[ok].max() \
                            > 1e-7*s:
                        return f'mode gradients at {q[k]} do not match {q[0]}'
                    if ok.any() and e['trim'] and \
                            np.abs(gw[k][ok]).max() > 1e-7*s:
                        return 'non-zero mode gradient where q = -q + G'
        ck.replay(f'walk {e["walk"]}/{e["m"]} model {n % len(models)} {opts}',
                  one, case=e)
        if n < 4:
            ck.sample(e)
    ck.notes['walks_at_time_reversal_invariant_points'] = n_trim
    ck.assumptions += ['force constants obey the exchange symmetry',
                       'splitting=False (the LO-TO term is direction '
                       'dependent; see C05)']
