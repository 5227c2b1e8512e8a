"""C13: adaptive DOS sums one unit-area Gaussian per mode."""
import warnings
import numpy as np
from vf import lattice as L
import c12

STEP = c12.STEP
UNITS = c12.UNITS


def gen(ck):
    rng = L.rng_for(ck.seed, 'c13')
    out = []
    for k in range(ck.pick(90, 900)):
        na = [1, 2, 3][k % 3]
        nq = int(rng.integers(1, 4))
        lo = int(rng.integers(-8, 3))
        edges = [lo]
        even = int(rng.integers(1, 4))
        for _ in range(int(rng.integers(1, 7))):
            edges.append(edges[-1] + (even if k % 2 == 0
                                      else int(rng.integers(1, 5))))
        u = rng.integers(-1, 2, size=(nq, 3*na, na, 3, 2))
        u[..., 0, 0, 0] = 1
        c = {'id': k, 'edges': edges, 'u': u.tolist(), 'unit': UNITS[k % 4],
             'f': rng.integers(2*lo - 4, 2*edges[-1] + 5,
                               size=(nq, 3*na)).tolist(),
             's': rng.integers(0, 9, size=(nq, 3*na)).tolist(),
             'smin': int(rng.integers(1, 4)),
             'w': [int(x) for x in rng.integers(1, 6, size=nq)],
             'sp': [int(x) for x in rng.integers(0, 3, size=na)]}
        ms, xs = rng.integers(1, 9, size=4), rng.integers(1, 12, size=4)
        c['mass'] = [int(ms[s]) for s in c['sp']]
        c['xs'] = [int(xs[s]) for s in c['sp']]
        out.append(c)
    return out


def value(e, k, q, unit):
    from euphonic import ureg
    u = STEP*ureg('hartree').to(unit, 'spectroscopy').magnitude
    return 2*np.sqrt(np.log(2)/np.pi)/u*np.array(
        [sum(t[2]/t[3]*2.**(-t[0]/t[1]) for t in b) for b in e['out'][k][q]])


def run(ck):
    cases = gen(ck)
    r = ck.tlc('Adapt', cases=cases, invariants=[
        'PartsSum', 'AllReach', 'NotTooNarrow', 'Emit'])
    res = {e['id']: e for e in r.emitted}
    for c in cases:
        ck.replay(f'{c["unit"]} edges {c["edges"]} modes {c["f"]} widths '
                  f'{c["s"]} min {c["smin"]}', lambda: one(c, res[c['id']]),
                  case=c)
        if c['id'] < 2:
            ck.sample({x: c[x] for x in ('f', 's', 'edges')}
                      | {'first bin': res[c['id']]['out'][0][0][0]})
    fast(ck)
    ck.assumptions += [
        'fast method: modes at bin centres well inside evenly spaced bins, '
        'widths (sigma) of at least three bins; agreement is the area between '
        'the curves per unit area']


def one(c, e):
    from euphonic import ureg
    rng = L.rng_for(c['id'], 'c13x')
    o, bins = c12.build(c)
    sg = STEP/(2*np.sqrt(2*np.log(2)))*ureg('hartree')
    wu = UNITS[int(rng.integers(4))]
    s = (np.array(c['s'], dtype=float)*sg).to(wu, 'spectroscopy')
    mn = (c['smin']*sg).to(UNITS[int(rng.integers(4))], 'spectroscopy')
    kw = {'mode_widths': s, 'mode_widths_min': mn}
    keep = s.magnitude.copy()
    w = np.array(c['w'], dtype=float)/sum(c['w'])
    n = len(c['sp'])
    per = np.array([[value(e, k, q, c['unit']) for q in range(len(w))]
                    for k in range(n + 1)])
    tot = np.einsum('q,kqb->kb', w, per)
    for cls in ('freqs', 'modes', 'sf'):
        o2, _ = c12.build(c, cls)
        d = o2.calculate_dos(bins, **kw)
        if not np.array_equal(keep, s.magnitude):
            return 'widths changed'
        r = c12.cmp(c12.inv_unit(d.y_data, c['unit']), tot[0], f'dos {cls}')
        if r:
            return r
        if not c12.same_bins(d.x_data, bins):
            return 'bins are not the x axis'
    d = o.calculate_dos_map(bins, **kw)
    r = c12.cmp(c12.inv_unit(d.z_data, c['unit']), per[0], 'dos map')
    if r:
        return r
    d = o.calculate_pdos(bins, **kw)
    r = c12.cmp(c12.inv_unit(d.y_data, c['unit']), tot[1:], 'pdos')
    if r:
        return r
    xs = {c12.SPEC[s]: x*ureg('barn') for s, x in zip(c['sp'], c['xs'])}
    ms = np.array(c['mass'])
    d = o.calculate_pdos(bins, cross_sections=xs, **kw)
    return c12.cmp(c12.inv_unit(d.y_data, c['unit'], 'barn'),
                   tot[1:]*(np.array(c['xs'])*ms.mean()/ms)[:, None],
                   'weighted pdos')


def fast(ck):
    from euphonic import Crystal, QpointPhononModes, ureg
    for t in range(ck.pick(60, 500)):
        rng = L.rng_for(ck.seed, 'c13f', t)
        na = 1 + t % 2
        nq = int(rng.integers(1, 8))
        nb = int(rng.choice([400, 401, 523]))
        unit = ['meV', '1/cm', 'THz'][t % 3]
        db = [.1, 1., .05][t % 3]
        b0 = float(rng.choice([0, -3*db, 20*db]))
        bins = b0 + np.arange(nb + 1)*db
        cen = (bins[1:] + bins[:-1])/2
        f = cen[rng.integers(nb//3, 2*nb//3, (nq, 3*na))]
        kind = t % 4
        if kind == 0:
            wd = rng.uniform(3, 20, f.shape)*db
        elif kind == 1:      # one width for all
            wd = np.full(f.shape, rng.uniform(3, 20))*db
        elif kind == 2:      # geometric, few values
            wd = 3*db*1.37**rng.integers(0, 6, f.shape)
        else:                # some below the minimum
            wd = rng.uniform(0, 9, f.shape)*db
        fit = ['cubic', 'cheby-log'][(t//4) % 2]
        err = float(rng.choice([.1, .03, .01, .003]))
        mn = 3*db*ureg(unit)
        cr = Crystal(np.diag([4., 5, 6])*ureg('angstrom'), rng.random((na, 3)),
                     np.array(['Si', 'O'][:na]),
                     np.array([28., 16][:na])*ureg('amu'))
        ev = rng.normal(size=(nq, 3*na, na, 3)) + 0j
        ev /= np.sqrt((np.abs(ev)**2).sum(axis=(2, 3)))[..., None, None]
        w = rng.uniform(.1, 1, nq)
        o = QpointPhononModes(cr, rng.random((nq, 3)), f*ureg(unit), ev,
                              weights=w)
        kw = {'mode_widths': (wd*ureg(unit)).to('meV', 'spectroscopy'),
              'mode_widths_min': mn}
        fk = dict(kw, adaptive_method='fast', adaptive_error=err)
        if fit != 'cubic' or t % 2:
            fk['adaptive_error_fit'] = fit

        def g():
            B = bins*ureg(unit)
            with warnings.catch_warnings():
                warnings.simplefilter('error', UserWarning)
                a = o.calculate_dos(B, **kw).y_data.magnitude
                b = o.calculate_dos(B, **fk).y_data.magnitude
                pa = o.calculate_pdos(B, **kw).y_data.magnitude
                pb = o.calculate_pdos(B, **fk).y_data.magnitude
            for x, y, what in ((a, b, 'dos'), (pa, pb, 'pdos')):
                d = np.abs(x - y).sum(axis=-1)*db
                ar = x.sum(axis=-1)*db
                if not (d <= err*ar).all():
                    return (f'{what}: area between fast and reference '
                            f'{(d/ar).max():.4g} > {err}')
        ck.replay(f'fast {fit} error {err} bins {nb} {unit} kind {kind}', g)
    # uneven bins are warned about
    def g():
        cr = Crystal(np.diag([4., 5, 6])*ureg('angstrom'), np.zeros((1, 3)),
                     np.array(['Si']), np.array([28.])*ureg('amu'))
        o = QpointPhononModes(cr, np.zeros((1, 3)),
                              np.array([[1., 2, 3]])*ureg('meV'),
                              np.eye(3).reshape(1, 3, 1, 3) + 0j)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            o.calculate_dos(np.array([0, 1, 2.5, 4])*ureg('meV'),
                            mode_widths=np.ones((1, 3))*ureg('meV'),
                            adaptive_method='fast')
        if not any('bin widths' in str(x.message) for x in rec):
            return 'no warning for uneven bins'
    ck.replay('fast method on uneven bins', g)
