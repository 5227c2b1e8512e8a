"""C14: S(q,w) maps and averages with detailed balance."""
import numpy as np
from vf import lattice as L
import c12

STEP = c12.STEP
UNITS = c12.UNITS


def gen(ck):
    rng = L.rng_for(ck.seed, 'c14')
    out = []
    for k in range(ck.pick(200, 2000)):
        na = [1, 1, 2][k % 3]
        nq = int(rng.integers(1, 4))
        unit = UNITS[k % 4]
        nb = int(rng.integers(1, 8))
        edges = [int(rng.integers(-9, 4))]
        even = int(rng.integers(1, 4))
        for _ in range(nb):
            edges.append(edges[-1] + (even if k % 3 == 0
                                      else int(rng.integers(1, 4))))
        if k % 5 == 0:
            h = np.cumsum(rng.integers(1, 4, size=3))
            edges = (-h[::-1]).tolist() + ([0] if k % 2 else []) + h.tolist()
            edges = [int(x) for x in edges]
        t = int(rng.choice([1, 1, 3]))
        f = rng.integers(1, 22//t, size=(nq, 3*na))*t
        if k % 4 == 1:
            f = f*rng.choice([1, 1, 1, -1], size=f.shape)
        if unit != 'hartree':       # not on an edge
            f = np.where(f % 2 == 0, f + t, f)
        out.append({'id': k, 'edges': edges, 't': t, 'unit': unit,
                    'f': f.tolist(), 'sp': [0]*na, 'mass': [1]*na,
                    'sf': rng.integers(0, 9, size=f.shape).tolist(),
                    'w': [int(x) for x in rng.integers(1, 5, size=nq)]})
    return out


def value(e, temp):
    r = []
    for q in e['out']:
        row = []
        for b in q:
            s = 0
            for k, side, x in b:
                n = {'warm': 1/(2.**k - 1), 'cold': 0., 'none': None}[temp]
                s += x if n is None else x*(n + side)
            row.append(s)
        r.append(row)
    return np.array(r, dtype=float)


def run(ck):
    cases = gen(ck)
    r = ck.tlc('Sqw', cases=cases, invariants=[
        'Exact', 'Counted', 'Balance', 'Emit'])
    res = {e['id']: e for e in r.emitted}
    modes = ['own', 'given', 'both', 'cold', 'coldgiven', 'off', 'offwarm',
             'unknown', 'celsius', 'celsiusgiven']
    for c in cases:
        for how in (modes[c['id'] % 10], modes[(c['id']//10 + 3) % 10]):
            ck.replay(f'{c["unit"]} edges {c["edges"]} modes {c["f"]} '
                      f't={c["t"]} temperature {how}',
                      lambda: one(ck, c, res[c['id']], how), case=c)
        if c['id'] < 2:
            ck.sample({'case': {x: c[x] for x in ('f', 'sf', 'edges', 't')},
                       'out': res[c['id']]['out'][0]})
    refused(ck)
    ck.assumptions += ['no mode of exactly zero frequency']


def one(ck, c, e, how):
    from euphonic import StructureFactor, Quantity, ureg
    import warnings
    o, bins = c12.build(c, 'freqs')
    # T from kT ln2 = t half units
    T = (c['t']/2*STEP*ureg('hartree')/ureg('boltzmann_constant')
         / np.log(2)).to('K')
    own = given = None
    temp = 'warm'
    tu = ['K', 'mK', 'kK'][c['id'] % 3]
    if how in ('own', 'both', 'offwarm'):
        own = T.to(tu)
    if how in ('given', 'both'):
        given = T
    if how == 'cold':
        own, temp = 0*ureg('K'), 'cold'
    if how == 'coldgiven':
        given, temp = 0*ureg('K'), 'cold'
    if how in ('off', 'offwarm', 'unknown'):
        temp = 'none'
    if how == 'celsius':
        own = Quantity(T.magnitude - 273.15, 'degC')
    if how == 'celsiusgiven':
        given = Quantity(T.magnitude - 273.15, 'degC')
    su = ['mbarn', 'bohr**2', 'fm**2'][c['id'] % 3]
    sfq = (np.array(c['sf'], dtype=float)*ureg('mbarn')).to(su)
    o = StructureFactor(o.crystal, o.qpts, o.frequencies, sfq,
                        weights=o.weights, temperature=own)
    keep = [x.copy() for x in (o._frequencies, o._structure_factors,
                               bins.magnitude)]
    kw = {}
    if how.startswith('off'):
        kw['calc_bose'] = False
    if given is not None:
        kw['temperature'] = given
    m = o.calculate_sqw_map(bins, **kw)
    for a, b in zip(keep, (o._frequencies, o._structure_factors,
                           bins.magnitude)):
        if not np.array_equal(a, b):
            return 'input changed'
    unit = c['unit']
    w = np.diff(c['edges'])*STEP*ureg('hartree').to(
        unit, 'spectroscopy').magnitude
    want = value(e, temp)/w
    if not c12.same_bins(m.y_data, bins):
        return 'bins are not the y axis'
    r = c12.cmp(c12.inv_unit(m.z_data, unit, 'mbarn'), want, 'map')
    if r:
        return r
    # averages over q-points
    wt = np.array(c['w'], dtype=float)
    a = o.calculate_1d_average(bins, **kw)
    r = c12.cmp(c12.inv_unit(a.y_data, unit, 'mbarn'),
                (want*wt[:, None]).sum(axis=0)/wt.sum(), 'average')
    if r:
        return r
    if not c12.same_bins(a.x_data, bins):
        return 'bins are not the x axis'
    w2 = np.arange(1., len(wt) + 1)
    a = o.calculate_1d_average(bins, weights=w2, **kw)
    r = c12.cmp(c12.inv_unit(a.y_data, unit, 'mbarn'),
                (want*w2[:, None]).sum(axis=0)/w2.sum(),
                'average with given weights')
    if r:
        return r
    if c['id'] % 6 == 0:
        # from modes of a weighted grid
        from euphonic import QpointPhononModes
        n = len(c['sp'])
        ev = np.ones((len(wt), 3*n, n, 3)) + 0j
        md = QpointPhononModes(o.crystal, o.qpts, o.frequencies, ev,
                               weights=wt)
        s = md.calculate_structure_factor()
        if not np.allclose(s.calculate_1d_average(bins).y_data.magnitude,
                           np.average(s.calculate_sqw_map(
                               bins).z_data.magnitude, axis=0, weights=wt),
                           rtol=1e-12, atol=0):
            return 'average of calculated structure factors'


def refused(ck):
    from euphonic import StructureFactor, ureg
    from euphonic.structure_factor import StructureFactor as S
    c = gen(ck)[3]
    o, bins = c12.build(c, 'freqs')
    for own, given, ok in ((300., 301., False), (300., 300.0000001, True),
                           (0., 5., False), (5., 0., False)):
        def f():
            s = StructureFactor(o.crystal, o.qpts, o.frequencies,
                                np.ones(o._frequencies.shape)*ureg('mbarn'),
                                temperature=own*ureg('K'))
            for fn in (s.calculate_sqw_map, s.calculate_1d_average):
                try:
                    fn(bins, temperature=given*ureg('K'))
                    if not ok:
                        return f'{given} K accepted with {own} K'
                except ValueError:
                    if ok:
                        return 'refused'
        ck.replay(f'temperatures {own} {given}', f)
