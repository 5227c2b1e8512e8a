"""C11: Debye-Waller exponents."""
import numpy as np
from vf import lattice as L

UE = 0.9
SPEC = ['Si', 'O', 'Na']
T0 = 250.


def gen(ck):
    rng = L.rng_for(ck.seed, 'c11')
    out = []
    names = list(L.GRAMS)
    while len(out) < ck.pick(120, 900):
        k = len(out)
        na = [1, 2, 2, 3, 4][k % 5]
        rden = [2, 4, 3, 2, 6][int(rng.integers(5))]
        R = []
        while len(R) < na:
            r = (rng.integers(-rden, 2*rden, size=3)).tolist()
            if k % 3 == 0:
                # special positions
                r = (rng.integers(0, 2, size=3)*(rden//2)).tolist()
            if na == 4 and R and k % 2:
                # an inverse of the last
                r = (-np.array(R[-1])).tolist() if len(R) % 2 else r
            if any(((np.array(r) - x) % rden == 0).all() for x in R):
                if rden == 3 and k % 3 == 0:
                    break
                rden_ok = rng.integers(20)
                if rden_ok == 0:
                    break
                continue
            R.append(r)
        if len(R) < na:
            continue
        sp = [int(x) for x in rng.integers(0, [1, 2, 3][k % 3], size=na)]
        npt = int(rng.integers(1, 4))
        cold = k % 4 == 3
        kk = rng.choice([1, 2, 3, 4, 5, 0, -1, -2] if not cold else
                        [1, 2, 3, 4, 6, 0, -1],
                        size=(npt, 3*na)).astype(int)
        u = rng.integers(-1, 2, size=(npt, 3*na, na, 3, 2))
        out.append({'id': k, 'gram': L.GRAMS[names[k % len(names)]],
                    'name': names[k % len(names)], 'R': R, 'rden': rden,
                    'sp': sp, 'cold': cold, 'k': kk.tolist(),
                    'u': u.tolist(),
                    'w': [int(x) for x in rng.integers(1, 5, size=npt)],
                    'kmin2': int(rng.choice([1, 1, 3, 5, 2, 4]))})
    return out


def run(ck):
    cases = gen(ck)
    r = ck.tlc('DWaller', cases=cases, invariants=[
        'OrderFree', 'Physical', 'Group', 'Projects', 'Emit'])
    res = {e['id']: e for e in r.emitted}
    sizes = [None, 1000, 1001, 999, 7, 2000, None, 2345, 40]
    for c in cases:
        k = c['id']
        for sym in (False, True):
            n = sizes[(k + sym) % len(sizes)]
            ck.replay(f'{c["name"]} atoms {c["R"]}/{c["rden"]} {c["sp"]} '
                      f'points {n or len(c["k"])} symmetrise={sym} '
                      f'cold={c["cold"]} cut={c["kmin2"]}/2',
                      lambda: one(ck, c, res[k], sym, n), case=c)
        if k < 2:
            ck.sample({x: c[x] for x in ('name', 'R', 'k', 'w')}
                      | {'W': res[k]['W'][0], 'ops': res[k]['n']})
    ck.notes['symmetry_orders'] = sorted({e['n'] for e in res.values()})
    defaults(ck)
    ck.assumptions += ['atoms of one species have one mass',
                       'frequencies not within rounding of the cut-off, other than exactly at it']


def crystal(c, unit, massunit='amu'):
    from euphonic import Crystal, ureg
    cell = L.cell_from_gram(c['gram'])*2.5
    ms = np.array([28., 16., 23.])[c['sp']]
    return cell, ms, Crystal(
        (cell*ureg('bohr')).to(unit), np.array(c['R'])/c['rden'],
        np.array([SPEC[i] for i in c['sp']]), (ms*ureg('amu')).to(massunit))


def one(ck, c, e, sym, n):
    from euphonic import QpointPhononModes, ureg
    rng = L.rng_for(ck.seed, 'c11x', c['id'], sym)
    cu = ['bohr', 'angstrom', 'nm'][c['id'] % 3]
    cell, ms, cr = crystal(c, cu)
    e0 = (ureg('k')*T0*ureg('K')).to('meV').magnitude*np.log(2)
    f = np.array(c['k'], dtype=float)*e0
    u = np.array(c['u'], dtype=float)
    ev = (u[..., 0] + 1j*u[..., 1]) @ cell*UE
    w = np.array(c['w'], dtype=float)
    if n is not None:
        # the same points many times, their weight shared out unevenly
        idx = np.concatenate([np.arange(len(w)),
                              rng.integers(0, len(w), max(0, n - len(w)))])
        part = rng.uniform(.1, 1, len(idx))
        if c['id'] % 2:
            part[len(w):] *= 1e-3
            part[rng.integers(len(idx))] *= 300
        tot = np.bincount(idx, part, minlength=len(w))
        ww = part*(w/tot)[idx]
        p = rng.permutation(len(idx))
        f, ev, w = f[idx][p], ev[idx][p], ww[p]
    if rng.integers(2):
        # modes of a point in any order
        p = rng.permutation(f.shape[1])
        f, ev = f[:, p], ev[:, p]
    ev = ev*np.exp(2j*np.pi*rng.random(f.shape))[:, :, None, None]
    if c['id'] % 3 == 1:
        ev = np.asfortranarray(ev)
    w = w*float(rng.choice([1, 7, .01]))
    fu = ['meV', '1/cm', 'hartree'][c['id'] % 3]
    if c['kmin2'] % 2 == 0:
        # exactly at the cut-off: no conversion, so no rounding
        fu = 'hartree'
    fq = (f*ureg('meV')).to(fu, 'spectroscopy')
    o = QpointPhononModes(cr, rng.random((len(f), 3)),
                          fq, ev,
                          weights=w)
    T = (0. if c['cold'] else T0)*ureg('K')
    if c['id'] % 4 == 2:
        T = T.to('mK')
    mn = (c['kmin2']/2*e0*ureg('meV')).to(['meV', 'THz', '1/cm'][c['id'] % 3],
                                          'spectroscopy')
    if c['kmin2'] % 2 == 0:
        at = fq.magnitude[f == c['kmin2']//2*e0]
        if at.size:
            mn = at.flat[0]*ureg('hartree')
    before = [np.array(x) for x in (o.eigenvectors, o._frequencies, o.weights)]
    kw = {} if sym and c['id'] % 2 else {'symmetrise': sym}
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', RuntimeWarning)
        d = o.calculate_debye_waller(T, frequency_min=mn, **kw)
    for a, b in zip(before, (o.eigenvectors, o._frequencies, o.weights)):
        if not np.array_equal(a, b):
            return 'input changed'
    want = np.array(e['sym' if sym else 'W'], dtype=float)
    want = want[..., 0]/want[..., 1]
    want = np.einsum('kij,il,jm->klm', want, cell, cell)*UE**2
    me = ureg('amu').to('m_e').magnitude
    want /= (4*ms*me)[:, None, None]*sum(c['w'])
    want /= e0*ureg('meV').to('hartree').magnitude
    if not d.debye_waller.check('[length]**2'):
        return f'unit {d.debye_waller.units}'
    got = d.debye_waller.to('bohr**2').magnitude
    if got.shape != want.shape:
        return f'shape {got.shape}'
    sc = np.abs(want).max() or 1e-9
    if not np.abs(got - want).max() < 1e-9*sc:
        i = np.unravel_index(np.abs(got - want).argmax(), got.shape)
        return f'element {i}: {got[i]:.9g} should be {want[i]:.9g}'
    if abs(d.temperature.to('K').magnitude - T.to('K').magnitude) > 1e-9:
        return 'temperature'
    if d.crystal.n_atoms != cr.n_atoms or not np.array_equal(
            d.crystal.atom_r, cr.atom_r):
        return 'crystal'


def defaults(ck):
    """the default cut-off (0.01 meV) removes acoustic modes at gamma, also if
    they are exactly zero"""
    from euphonic import Crystal, QpointPhononModes, ureg
    for t in range(ck.pick(6, 20)):
        rng = L.rng_for(ck.seed, 'c11d', t)
        cr = Crystal(np.diag([4., 5, 6])*ureg('angstrom'), rng.random((2, 3)),
                     np.array(['Si', 'O']), np.array([28., 16])*ureg('amu'))
        ev = rng.normal(size=(3, 6, 2, 3)) + 1j*rng.normal(size=(3, 6, 2, 3))
        f = rng.uniform(1, 40, (3, 6))
        low = [0., -3., .009, -1e-9, 1e-12, .0099]
        f[0, :3] = np.array(low)[rng.permutation(6)[:3]]
        f[1, 0] = [0., .0101][t % 2]
        T = [0, 77.][t % 2]*ureg('K')

        def f_():
            import warnings
            o = QpointPhononModes(cr, rng.random((3, 3)), f*ureg('meV'), ev)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore', RuntimeWarning)
                a = o.calculate_debye_waller(T, symmetrise=False)
            # leave the low modes out by hand
            ev2 = np.where((f < .01)[:, :, None, None], 0, ev)
            f2 = np.where(f < .01, 1., f)
            b = QpointPhononModes(cr, rng.random((3, 3)), f2*ureg('meV'), ev2
                                  ).calculate_debye_waller(T, symmetrise=False)
            a = a.debye_waller.magnitude
            b = b.debye_waller.magnitude
            if not np.abs(a - b).max() < 1e-10*np.abs(b).max():
                return f'frequencies {f[0, :3]}: {a.flat[0]} {b.flat[0]}'
        ck.replay(f'default cut-off, low modes {f[0, :3]} {f[1, 0]}', f_)
