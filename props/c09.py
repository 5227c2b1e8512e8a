"""C09: reordering permutes modes along eigenvector continuity."""
import numpy as np
from vf import lattice as L

TRIPLES = [(3, 4, 5), (5, 12, 13)]
UNITS = ['meV', 'THz', '1/cm', 'hartree']


def givens(U, den, rng, n):
    """times a rotation of two random columns, Gaussian integers"""
    a, b, h = TRIPLES[int(rng.integers(2))]
    p, q = rng.choice(n, 2, replace=False)
    R = np.eye(n, dtype=complex)*h
    R[p, p] = R[q, q] = a
    R[p, q], R[q, p] = b, -b
    return U @ R, den*h


def basis(rng, n, base=None):
    U, den = np.eye(n, dtype=complex), 1
    if base is not None:
        U, den = base
    k = int(rng.integers(0, 3))
    for _ in range(k):
        V, d = givens(U, den, rng, n)
        if d <= 169:
            U, den = V, d
    U = U[:, rng.permutation(n)]
    return U, den


def gen(ck):
    rng = L.rng_for(ck.seed, 'c09')
    cases = []
    for k in range(ck.pick(120, 900)):
        n = [3, 6, 3, 6, 3, 9][k % 6]
        m = int(rng.choice([2, 4, 5]))
        # a path of straight pieces, some going back, with repeated points
        q = rng.integers(-m, m + 1, size=3)
        if rng.integers(3) == 0:
            q = q*0
        qs = [q.tolist()]
        d = rng.integers(-1, 2, size=3)
        while not d.any():
            d = rng.integers(-1, 2, size=3)
        for _ in range(int(rng.integers(0, 7 if n < 9 else 4))):
            t = rng.integers(6)
            if t == 0:
                d = rng.integers(-1, 2, size=3)
            step = d*[1, 2, -1][int(rng.choice(3, p=[.6, .2, .2]))]
            if t == 1:
                step = step*0
            if t == 2:
                step = -q         # to gamma
            if t == 3:
                step = -q + m*rng.integers(-1, 2, size=3)
            q = q + step
            qs.append(q.tolist())
        es = []
        B = basis(rng, n)
        for _ in qs:
            U, den = B
            ph = np.array([1, 1j, -1, -1j])[rng.integers(4, size=n)]
            V = (U*ph).T            # rows: eigenvectors
            es.append([[[int(round(z.real)), int(round(z.imag))] for z in v]
                       for v in V])
            B = basis(rng, n, B if rng.integers(2) and den <= 13 else None)
        cases.append({'id': k, 'm': m, 'qs': qs, 'e': es,
                      'rg': bool(rng.integers(3) > 0)})
    # overlaps of which the greedy choice leaves only zeros
    found = 0
    for _ in range(200000):
        U, den = np.eye(6, dtype=complex), 1
        for _ in range(int(rng.integers(3, 6))):
            V, d = givens(U, den, rng, 6)
            if d <= 15625:
                U, den = V, d
        o = np.rint(np.abs(U.T)).astype(int)     # rows: modes
        left = [set(range(6)), set(range(6))]
        while left[0]:
            b = max((o[x, y], x, y) for x in left[0] for y in left[1])
            if b[0] == 0:
                break
            left[0].discard(b[1])
            left[1].discard(b[2])
        if not left[0]:
            continue
        one = np.eye(6)
        es = []
        for X in (one, U, one):
            V = (X*np.array([1, 1j, -1, -1j])[rng.integers(4, size=6)]).T
            V = V[rng.permutation(6)]
            es.append([[[int(round(z.real)), int(round(z.imag))] for z in v]
                       for v in V])
        cases.append({'id': len(cases), 'm': 4,
                      'qs': [[0, 1, 1], [1, 1, 1], [2, 1, 1]], 'e': es,
                      'rg': True})
        found += 1
        if found == ck.pick(12, 60):
            break
    return cases


def run(ck):
    cases = gen(ck)
    inv = ['Orthonormal', 'OneToOne', 'Permutes', 'Follows', 'Emit']
    r = ck.tlc('Reorder', cases=[c for c in cases if len(c['qs']) > 1],
               constants={'ZeroUsed': False}, invariants=inv)
    # the repaired defect does violate the property in the model
    ck.tlc('Reorder', cases=[c for c in cases if len(c['qs']) > 1],
           constants={'ZeroUsed': True}, invariants=['Permutes'],
           expect_violation=True)
    allowed = {}
    for e in r.emitted:
        allowed.setdefault((e['id'], e['i']), set()).add(tuple(e['asg']))
    ck.notes['steps'] = len(allowed)
    ck.notes['steps_with_several_allowed_assignments'] = sum(
        len(v) > 1 for v in allowed.values())
    for c in cases:
        for unit in (UNITS[c['id'] % 4],):
            ck.replay(f'path {c["qs"]}/{c["m"]} n={len(c["e"][0])} '
                      f'reorder_gamma={c["rg"]}',
                      lambda: one(c, allowed, unit), case=c)
        if c['id'] < 2:
            ck.sample({'qs': c['qs'], 'e': c['e'][:2],
                       'allowed': [sorted(allowed.get((c['id'], 2), []))]})
    real_paths(ck)
    ck.assumptions += ['path steps of at least 0.1 in reciprocal lattice units '
                       'in the generated cases (the documented tolerance of a '
                       'direction change is absolute)']


def one(c, allowed, unit):
    from euphonic import Crystal, QpointPhononModes, ureg
    n = len(c['e'][0])
    nq = len(c['qs'])
    rng = L.rng_for(c['id'], 'c09x')
    cr = Crystal(np.diag([4., 5, 6])*ureg('angstrom'),
                 rng.random((n//3, 3)), np.array(['Si']*(n//3)),
                 np.full(n//3, 28.)*ureg('amu'))
    ev = np.array(c['e'], dtype=float)
    ev = ev[..., 0] + 1j*ev[..., 1]
    ev /= np.linalg.norm(ev, axis=-1)[..., None]
    ev = ev.reshape(nq, n, n//3, 3)
    fr = np.sort(rng.random((nq, n)), axis=1) + np.arange(n)
    w = rng.random(nq)
    q = np.array(c['qs'])/c['m']
    o = QpointPhononModes(cr, q.copy(), (fr*ureg('meV')).to(unit),
                          ev.copy(), w.copy())
    f0 = o.frequencies.magnitude.copy()
    if c['rg'] and c['id'] % 2:
        ret = o.reorder_frequencies()
    else:
        ret = o.reorder_frequencies(reorder_gamma=c['rg'])
    if ret is not None:
        return 'returns something'
    f1 = o.frequencies.magnitude
    if str(o.frequencies.units) != str(ureg(unit).units):
        return 'unit changed'
    if not (np.array_equal(o.qpts, q) and np.array_equal(o.weights, w)):
        return 'q-points or weights changed'
    prev = np.arange(n)
    for k in range(nq):
        # which original mode is at each place
        mp = np.abs(f1[k][:, None] - f0[k][None, :]).argmin(axis=1)
        if not np.allclose(f1[k], f0[k][mp], rtol=1e-12, atol=0) \
                or sorted(mp) != list(range(n)):
            return f'frequencies at point {k} are not a permutation'
        if not np.array_equal(o.eigenvectors[k], ev[k][mp]):
            return f'eigenvectors at point {k} do not go with frequencies'
        if k == 0:
            if list(mp) != list(range(n)):
                return 'first point was reordered'
        else:
            asg = [0]*n
            for s in range(n):
                asg[prev[s]] = int(mp[s]) + 1
            if tuple(asg) not in allowed[c['id'], k + 1]:
                return (f'step to point {k}: previous modes 1.. went to '
                        f'{asg}, allowed {sorted(allowed[c["id"], k+1])[:3]}')
        prev = mp
    return None


def real_paths(ck):
    """interpolated modes on a fine path: reordering keeps the pairs, and
    every branch continuous in eigenvector"""
    from vf import polar
    for t in range(ck.pick(3, 12)):
        fc = polar.make(ck.seed, f'c09{t}', n_atoms=2, polar=bool(t % 2))[1]
        rng = L.rng_for(ck.seed, 'c09p', t)
        a, b = rng.random(3) - .5, rng.random(3) - .5
        q = a + np.linspace(0, 1, 60)[:, None]*(b - a)*.3
        for use_c in (True, False):
            def f():
                o = fc.calculate_qpoint_phonon_modes(q, use_c=use_c)
                m = L.masses_me(fc.crystal)
                d0 = L.reconstruct(o, m)
                fr = np.sort(o.frequencies.magnitude, axis=1)
                o.reorder_frequencies()
                d1 = L.reconstruct(o, m)
                if not np.abs(d0 - d1).max() < 1e-12*np.abs(d0).max():
                    return 'modes are no longer those of the matrix'
                if not np.array_equal(np.sort(o.frequencies.magnitude, axis=1),
                                      fr):
                    return 'frequencies lost'
                v = o.eigenvectors.reshape(len(q), fr.shape[1], -1)
                ov = np.abs(np.einsum('qij,qkj->qik', v[:-1].conj(), v[1:]))
                big = ov > .8
                idx = np.argwhere(big)
                if (idx[:, 1] != idx[:, 2]).any():
                    return 'a branch was not followed'
            ck.replay(f'fine path {t} use_c={use_c}', f)
