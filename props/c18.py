"""C18: kinematic constraints."""
import numpy as np
from vf import lattice as L

# hbar^2/(2 m_n), CODATA
HBAR, MN, QE = 1.054571817e-34, 1.67492749804e-27, 1.602176634e-19
C2 = HBAR**2/(2*MN)/QE*1e3*1e20        # meV angstrom^2

ANGLES = [0, 30, 45, 60, 90, 120, 135, 150, 180]


def cases(ck, rng):
    out = []
    for i in range(ck.pick(250, 4000)):
        e0 = int(rng.integers(1, 14))
        ye, xe = bool(rng.integers(2)), bool(rng.integers(2))
        y = np.sort(rng.choice(np.arange(-16, 17), rng.integers(2, 9),
                               replace=False)).tolist()
        if rng.integers(3) == 0:
            y = sorted(set(y) | ({-1, 1} if ye else {0}))
        X = int(rng.integers(1, 4))
        x = np.sort(rng.choice(np.arange(0, 9*X), rng.integers(2, 10),
                               replace=False)).tolist()
        if rng.integers(3) == 0 and x[0]:
            x = [0] + x
        a = [int(rng.choice(ANGLES))*int(rng.choice([1, 1, -1]))
             + 360*int(rng.choice([0, 0, 0, 1, -1])) for _ in range(2)]
        if i % 5 == 0:
            a = [0, 180]
        elif i % 5 == 1:
            a = sorted(int(rng.choice(ANGLES)) for _ in range(2))
        out.append({'id': i, 'e0': e0, 'direct': bool(rng.integers(2)),
                    'y': y, 'x': x, 'ye': ye, 'xe': xe, 'X': X, 'angles': a})
    return out


def run(ck):
    rng = L.rng_for(ck.seed, 'c18')
    cs = cases(ck, rng)
    r = ck.tlc('Kinematic', cases=cs, invariants=[
        'Interval', 'Elastic', 'Beyond', 'Emit'])
    res = {e['id']: e['mask'] for e in r.emitted}
    tot = np.zeros(3, dtype=int)
    for c in cs:
        m = np.array(res[c['id']]).T
        tot += np.bincount(m.ravel(), minlength=3)
        unit = float(10**rng.uniform(-1, 1.5))
        yu = ['meV', '1/cm', 'hartree', 'THz', 'J'][rng.integers(5)]
        xu = ['1/angstrom', '1/bohr', '1/nm'][rng.integers(3)]
        eu = ['meV', '1/cm', 'eV'][rng.integers(3)]
        if c['id'] < 4:
            ck.sample({'case': c, 'mask': res[c['id']]})
        ck.replay(f'{"direct" if c["direct"] else "indirect"} {c["e0"]} angles '
                  f'{c["angles"]} x {c["x"]}/{c["X"]} y {c["y"]}',
                  lambda: one(c, m, unit, xu, yu, eu), case=c)
    ck.notes['bins kept, masked, on the limit'] = tot.tolist()
    rounding(ck, rng)
    refusals(ck)
    ck.assumptions += ['a bin is kept if any part of its momentum range can '
                       'be reached at the energy of its centre',
                       'bins with an edge exactly on a limit may go either way']


def one(c, m, unit, xu, yu, eu):
    from euphonic import Quantity
    from euphonic.spectra import Spectrum2D, apply_kinematic_constraints
    x = Quantity(np.array(c['x'])/c['X']*np.sqrt(unit/C2), '1/angstrom').to(xu)
    y = Quantity(np.array(c['y'])*unit, 'meV').to(yu)
    z = 1. + np.arange(m.size).reshape(m.shape)
    s = Spectrum2D(x, y, Quantity(z, 'mbarn'), x_tick_labels=[(0, 'a')],
                   metadata={'k': 'v'})
    if c['id'] % 3 == 0:
        s.z_data_unit = 'angstrom**2'
    e = Quantity(c['e0']*unit, 'meV').to(eu)
    kw = {'e_i' if c['direct'] else 'e_f': e}
    a = c['angles']
    if a != [0, 180] or c['id'] % 2:
        kw['angle_range'] = (tuple(a), a, np.array(a, dtype=float))[c['id'] % 3]
    r = apply_kinematic_constraints(s, **kw)
    zz = s.z_data.to('mbarn').magnitude
    if not np.allclose(zz, z, rtol=1e-12):
        return 'the operand has changed'
    if type(r) is not Spectrum2D or r.metadata != s.metadata or \
            r.x_tick_labels != s.x_tick_labels:
        return 'metadata or labels'
    for n in ('x_data', 'y_data'):
        p, q = getattr(r, n), getattr(s, n)
        if p.units != q.units or not np.array_equal(p.magnitude, q.magnitude):
            return n
    if r.z_data.units != s.z_data.units:
        return f'unit {r.z_data.units}'
    g = r.z_data.to('mbarn').magnitude
    nan = np.isnan(g)
    if not np.allclose(g[~nan], z[~nan], rtol=1e-12):
        return 'data that are kept have changed'
    bad = (m != 2) & (nan != (m == 1))
    if bad.any():
        i = np.argwhere(bad)[0].tolist()
        return (f'bin {i} is {"masked" if nan[tuple(i)] else "kept"}, should '
                f'not be')


def rounding(ck, rng):
    """at and near the elastic line"""
    from euphonic import Quantity
    from euphonic.spectra import Spectrum2D, apply_kinematic_constraints
    for i in range(ck.pick(40, 400)):
        e = rng.uniform(5, 100)
        w = np.append(rng.choice([-1, 1], 20)*10.**rng.uniform(-16, -5, 20), 0.)
        geo = ('e_i', 'e_f')[i % 2]

        def go():
            x = Quantity(np.linspace(0, 3.1, 10)*np.sqrt(e/C2), '1/angstrom')
            s = Spectrum2D(x, Quantity(w, 'meV'),
                           Quantity(np.ones((9, 21)), 'mbarn'))
            n = np.isnan(apply_kinematic_constraints(
                s, **{geo: Quantity(e, 'meV')}).z_data.magnitude)
            if n[:6].any() or not n[6:].all():
                return f'{geo} {e}: wrong mask at {w[n[:6].any(0) | ~n[6:].all(0)]}'
        ck.replay(f'elastic line {geo}={e:.3f}', go)


def refusals(ck):
    from euphonic import Quantity
    from euphonic.spectra import Spectrum2D, apply_kinematic_constraints
    z = Quantity(np.ones((2, 3)), 'mbarn')
    q, w = Quantity(np.arange(3.), '1/angstrom'), Quantity(np.arange(3.), 'meV')
    e = Quantity(10., 'meV')
    good = Spectrum2D(q, w, z)
    for label, s, kw in (
            ('both', good, {'e_i': e, 'e_f': e}), ('neither', good, {}),
            ('x unit', Spectrum2D(w, w, z), {'e_i': e}),
            ('y unit', Spectrum2D(q, Quantity(np.arange(3.), 'kg'), z), {'e_f': e})):
        def go():
            try:
                apply_kinematic_constraints(s, **kw)
            except (ValueError, TypeError):   # DimensionalityError is the latter
                return
            return 'accepted'
        ck.replay(label, go)
