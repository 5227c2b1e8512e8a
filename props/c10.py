"""C10: structure factors equal their defining sum."""
import json
import os
import tempfile
import numpy as np
from vf import lattice as L
from vf import polar

UM = 2.0          # amu per (sqrt mass unit)^2
UB = 1.7          # fm per scattering length unit
UE = 0.9          # bohr^... eigenvector component per unit of a cell vector
SPEC = ['Si', 'O', 'Na', 'Cl']


def gen(ck):
    rng = L.rng_for(ck.seed, 'c10')
    out = []
    names = list(L.GRAMS)
    while len(out) < ck.pick(160, 1500):
        k = len(out)//3
        na = [1, 2, 3, 2][k % 4]
        mq, mr = [(2, 2), (1, 4), (4, 1), (3, 2), (2, 3), (4, 2)][
            int(rng.integers(6))]
        nq = 3
        sp = [int(x) for x in rng.integers(0, 3, size=na)]
        # per species
        bs = [[int(x), 0] for x in rng.integers(-4, 5, size=3)]
        if k % 5 == 0:
            bs = [[b[0], int(rng.integers(-3, 4))] for b in bs]
        ss = [int(x) for x in rng.choice([1, 2, 4], size=3)]
        dw = bool(k % 3)
        pts = []
        tries = 0
        while len(pts) < nq and tries < 1000:
            tries += 1
            n = rng.integers(-4, 5, size=3)
            if len(pts) == 0 and k % 8 == 0:
                n = n*0
            if len(pts) == 0:
                M = np.zeros((na, 3, 3), dtype=int)
                if dw:
                    M = rng.integers(-1, 2, size=(na, 3, 3))
                    M = M + np.einsum('kij,klj->kil', M, M)*(
                        rng.integers(2) if na < 3 else 1)
                    if rng.integers(2):
                        M *= mq*mq
            e = np.einsum('i,kij,j->k', n, M, n)
            if (e % (mq*mq)).any() or (e < 0).any() or e.max() > 3*mq*mq:
                continue
            pts.append(n.tolist())
        if len(pts) < nq:
            continue
        r = rng.integers(-mr, 2*mr, size=(na, 3)).tolist()
        for q, n in enumerate(pts):
            u = rng.integers(-1, 2, size=(3*na, na, 3, 2))
            out.append({'id': k*8 + q, 'grp': k, 'mq': mq, 'mr': mr, 'n': n,
                        'R': r, 'b': [bs[x] for x in sp],
                        's': [ss[x] for x in sp], 'M': M.tolist(),
                        'u': u.tolist(), 'sp': sp, 'dw': dw,
                        'w': [int(x) for x in rng.integers(1, 40, size=3*na)],
                        'neg': bool(rng.integers(4) == 0),
                        'name': names[k % len(names)]})
    return out


def run(ck):
    cases = gen(ck)
    r = ck.tlc('SFactor', cases=cases, invariants=[
        'Exact', 'Real', 'PhaseFree', 'GammaDark', 'Commutes', 'Emit'])
    res = {(e['id'], e['v']): e for e in r.emitted}
    groups = {}
    for c in cases:
        groups.setdefault(c['grp'], []).append(c)
    for g, cs in groups.items():
        ck.replay(f'sum: {len(cs[0]["R"])} atoms q={[c["n"] for c in cs]}/'
                  f'{cs[0]["mq"]} dw={cs[0]["dw"]}',
                  lambda: one(ck, cs, res), case=cs)
        if g in (0, 1):
            c = cs[0]
            ck.sample({k: c[k] for k in ('n', 'mq', 'R', 'b', 's', 'M')}
                      | {'sq': res[c['id'], 1]['sq'],
                         'den': res[c['id'], 1]['den']})
    sources(ck)
    gauge(ck)
    refused(ck)
    ck.assumptions += ['no exactly zero frequency (the intensity is infinite)']


def build(cs):
    from euphonic import Crystal, QpointPhononModes, DebyeWaller, ureg
    c = cs[0]
    g = cs[0]['grp']
    na = len(c['R'])
    m = c['mq']*c['mr']
    cell = L.cell_from_gram(L.GRAMS[c['name']])*2.5
    cu = ['bohr', 'angstrom', 'nm'][g % 3]
    types = np.array([SPEC[x] for x in c['sp']])
    cr = Crystal((cell*ureg('bohr')).to(cu),
                 np.array(c['R'])/c['mr'], types,
                 (np.array(c['s'], dtype=float)**2*UM*ureg('amu')).to(
                     ['amu', 'm_e', 'kg'][g % 3]))
    q = np.array([x['n'] for x in cs])/c['mq']
    u = np.array([x['u'] for x in cs], dtype=float)
    ev = (u[..., 0] + 1j*u[..., 1]) @ cell*UE
    if g % 4 == 1:
        ev = np.asfortranarray(ev)
    f = np.array([[(-1 if x['neg'] and i < 2 else 1)*w
                   for i, w in enumerate(x['w'])] for x in cs], dtype=float)
    wts = np.array([.2, .5, .3]) if g % 2 else None
    fu = ['meV', '1/cm', 'THz'][g % 3]
    o = QpointPhononModes(cr, q, (f*ureg('meV')).to(
        fu, 'spectroscopy'), ev, weights=wts)
    dw = None
    if c['dw']:
        W = np.einsum('kij,il,jm->klm', np.array(c['M'], dtype=float), cell,
                      cell)*np.log(2)/(2*np.pi)**2
        cr2 = cr
        if g % 2:    # the Debye-Waller factor may come from another object
            cr2 = Crystal((cell*ureg('bohr')).to('angstrom'),
                          np.array(c['R'])/c['mr'], types, cr.atom_mass)
        T = [0., 5., 300.][g % 3]
        dw = DebyeWaller(cr2, (W*ureg('bohr**2')).to(
            ['bohr**2', 'angstrom**2'][g % 2]), T*ureg('K'))
    bu = ['fm', 'angstrom', 'bohr'][g % 3]
    sl = {SPEC[x]: ((b[0] + 1j*b[1] if b[1] else float(b[0]))*UB*ureg('fm')
                    ).to(bu) for x, b in zip(c['sp'], c['b'])}
    sl['Xx'] = 3*ureg('fm')
    return o, dw, sl, f, q, wts, m, na


def one(ck, cs, res):
    from euphonic import ureg
    o, dw, sl, f, q, wts, m, na = build(cs)
    before = (o.qpts.copy(), o.eigenvectors.copy(), o._frequencies.copy())
    sf = o.calculate_structure_factor(scattering_lengths=sl, dw=dw)
    if not (np.array_equal(before[0], o.qpts)
            and np.array_equal(before[1], o.eigenvectors)
            and np.array_equal(before[2], o._frequencies)):
        return 'input changed'
    if not sf.structure_factors.check('[length]**2'):
        return f'unit {sf.structure_factors.units}'
    x = sf.structure_factors.to('bohr**2').magnitude
    if x.shape != (len(cs), 3*na):
        return f'shape {x.shape}'
    z = L.zeta(m)
    me = ureg('amu').to('m_e').magnitude
    b1 = ureg('fm').to('bohr').magnitude
    for i, c in enumerate(cs):
        for v in range(3*na):
            e = res[c['id'], v + 1]
            s = np.array(e['sq'], dtype=float)
            a = ((s[:, 0] + 1j*s[:, 1]) @ z).real / e['den']**2
            a *= (2*np.pi*UE)**2 * (UB*b1)**2/(UM*me)
            w = abs(f[i, v])*ureg('meV').to('hartree').magnitude
            a /= 2*na*w
            sc = (2*np.pi*UE*UB*b1)**2/(UM*me)/(2*na*w)
            if abs(x[i, v] - a) > 1e-9*abs(a) + 1e-9*sc:
                return (f'mode {v} at {c["n"]}/{c["mq"]}: {x[i, v]:.9g} '
                        f'should be {a:.9g}')
    if sf.crystal.to_dict().keys() != o.crystal.to_dict().keys():
        return 'crystal'
    for k, w in o.crystal.to_dict().items():
        w2 = sf.crystal.to_dict()[k]
        if not (np.allclose(w, w2, rtol=1e-14, atol=0)
                if isinstance(w, np.ndarray) and w.dtype.kind == 'f'
                else np.array_equal(w, w2)):
            return f'crystal {k}'
    if not np.array_equal(sf.qpts, q):
        return 'q-points'
    if str(sf.frequencies.units) != str(o.frequencies.units) or not \
            np.allclose(sf.frequencies.magnitude, o.frequencies.magnitude,
                        rtol=1e-14, atol=0):
        return 'frequencies'
    if not np.allclose(sf.weights, o.weights, rtol=1e-14, atol=0):
        return f'weights {sf.weights} of modes with weights {o.weights}'
    if dw is None:
        if sf.temperature is not None:
            return 'temperature without Debye-Waller factor'
    elif sf.temperature is None or abs(
            sf.temperature.to('K').magnitude
            - dw.temperature.to('K').magnitude) > 1e-12:
        return f'temperature {sf.temperature}'


# published values (fm): V.F. Sears, Neutron News 3 (1992) 29
SEARS = {'H': -3.7390, 'He': 3.26, 'C': 6.6460, 'N': 9.36, 'O': 5.803,
         'F': 5.654, 'Na': 3.63, 'Mg': 5.375, 'Al': 3.449, 'Si': 4.1491,
         'P': 5.13, 'S': 2.847, 'Cl': 9.5770, 'Fe': 9.45, 'Cu': 7.718,
         'Zr': 7.16, 'Hg': 12.692, 'Ni': 10.3, 'V': -.3824, 'Nb': 7.054}


def sources(ck):
    """dictionary, file and named data give the same numbers"""
    from euphonic import Crystal, QpointPhononModes, ureg
    rng = L.rng_for(ck.seed, 'c10s')
    els = [e for e in SEARS]
    for t in range(ck.pick(6, 40)):
        sp = rng.choice(els, size=3, replace=False)
        cr = Crystal(L.cell_from_gram(L.GRAMS['tric'])*2*ureg('angstrom'),
                     rng.random((3, 3)), sp, rng.uniform(5, 90, 3)*ureg('amu'))
        ev = rng.normal(size=(4, 9, 3, 3)) + 1j*rng.normal(size=(4, 9, 3, 3))
        o = QpointPhononModes(cr, rng.uniform(-3, 3, (4, 3)),
                              rng.uniform(1, 30, (4, 9))*ureg('meV'), ev)

        def val(**kw):
            return o.calculate_structure_factor(
                **kw).structure_factors.to('mbarn').magnitude

        def named():
            a = val(scattering_lengths={e: SEARS[e]*ureg('fm') for e in sp})
            b = val()
            c = val(scattering_lengths='Sears1992')
            if not np.allclose(a, b, rtol=1e-10, atol=0) or \
                    not np.array_equal(b, c):
                return f'Sears1992 data for {sp}: {a.flat[0]} {b.flat[0]}'
            try:      # it has no scattering lengths
                val(scattering_lengths='BlueBook')
                return 'BlueBook has no scattering lengths'
            except ValueError:
                pass
        ck.replay(f'named data {sp}', named)

        def file():
            b = {str(e): float(rng.integers(-9, 10)) for e in sp}
            cb = dict(b)
            cx = t % 2 == 1
            if cx:
                cb[sp[0]] = {'__complex__': True, 'real': 3., 'imag': -2.}
                b[sp[0]] = 3 - 2j
            fd, fn = tempfile.mkstemp(suffix='.json')
            try:
                with os.fdopen(fd, 'w') as f:
                    json.dump({'physical_property': {
                        'coherent_scattering_length': {
                            '__units__': 'angstrom', 'Nh': None, **cb},
                        'coherent_cross_section': {
                            '__units__': 'barn', **{str(e): 1. for e in sp}}}},
                              f)
                a = val(scattering_lengths=fn)
            finally:
                os.remove(fn)
            x = val(scattering_lengths={k: w*ureg('angstrom')
                                        for k, w in b.items()})
            if not np.allclose(a, x, rtol=1e-12, atol=0):
                return 'file data'
        ck.replay(f'data file {sp}', file)


def gauge(ck):
    """the cell an atom is said to belong to does not matter for interpolated
    modes; a degenerate set is compared as a whole"""
    from euphonic import ureg
    for t in range(ck.pick(10, 60)):
        c, fc, rng = polar.make(ck.seed, f'c10g{t}', n_atoms=2,
                                polar=bool(t % 2), cells=(2, 3, 4))
        q = np.concatenate([rng.uniform(-3, 3, (3, 3)),
                            rng.integers(-2, 3, (2, 3))/2])
        o = fc.calculate_qpoint_phonon_modes(q)
        # common origin shift and permutation of the atoms of the modes
        from euphonic import Crystal, QpointPhononModes
        p = rng.permutation(2)
        T = rng.integers(-2, 3, size=(2, 3))
        sh = rng.random(3)
        cr = fc.crystal
        cr2 = Crystal(cr.cell_vectors, (cr.atom_r + T + sh)[p],
                      cr.atom_type[p], cr.atom_mass[p])
        # eigenvectors are Bloch functions of the cell, not of the atom
        ev = o.eigenvectors*np.exp(2j*np.pi*q @ T.T)[:, None, :, None]
        ph = np.exp(2j*np.pi*rng.random((len(q), 6)))
        ev = (ev*ph[:, :, None, None])[:, :, p]
        o2 = QpointPhononModes(cr2, q, o.frequencies, ev)

        def f():
            a = o.calculate_structure_factor().structure_factors.magnitude
            b = o2.calculate_structure_factor().structure_factors.magnitude
            if np.abs(a - b).max() > 1e-9*np.abs(a).max():
                return (f'depends on origin, cell choice or phase: '
                        f'{np.abs(a - b).max()/np.abs(a).max():.3g}')
        ck.replay(f'gauge {t}', f)


def refused(ck):
    from euphonic import Crystal, DebyeWaller, ureg
    c, fc, rng = polar.make(ck.seed, 'c10r', n_atoms=2, polar=False)
    o = fc.calculate_qpoint_phonon_modes(rng.random((2, 3)))
    cr3 = Crystal(np.eye(3)*ureg('angstrom'), rng.random((3, 3)),
                  np.array(['Si']*3), np.ones(3)*ureg('amu'))
    dw = DebyeWaller(cr3, np.zeros((3, 3, 3))*ureg('bohr**2'), 1*ureg('K'))
    for kw, ex in (({'dw': dw}, ValueError),
                   ({'scattering_lengths': 3}, TypeError),
                   ({'scattering_lengths': ['Si']}, TypeError),
                   ({'scattering_lengths': 'no such data'}, ValueError)):
        def f():
            try:
                o.calculate_structure_factor(**kw)
            except ex:
                return None
            return f'{list(kw)} accepted'
        ck.replay(f'refuse {list(kw)}', f)
