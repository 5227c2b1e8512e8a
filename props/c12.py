"""C12: DOS, PDOS and DOS maps bin every mode once with its weight."""
import json
import os
import numpy as np
from vf import lattice as L
from vf.stage import REPO

SPEC = ['Si', 'O', 'Na', 'Cl']
UNITS = ['meV', '1/cm', 'THz', 'hartree']
# one model unit, in hartree: exact in binary for the hartree cases
STEP = 2.0**-9


def gen(ck):
    rng = L.rng_for(ck.seed, 'c12')
    out = []
    for k in range(ck.pick(160, 1500)):
        na = [1, 2, 2, 3][k % 4]
        nq = int(rng.integers(1, 5))
        unit = UNITS[k % 4]
        lo = int(rng.integers(-8, 3))
        nb = int(rng.integers(1, 7))
        edges = [lo]
        even = int(rng.integers(1, 4))
        for _ in range(nb):
            edges.append(edges[-1] + (even if k % 3 == 0
                                      else int(rng.integers(1, 5))))
        # half units; odd: inside, even: possibly on an edge
        f = rng.integers(2*lo - 4, 2*edges[-1] + 5, size=(nq, 3*na))
        if k % 5 == 0:
            f = rng.integers(2*lo, 2*edges[-1], size=(nq, 3*na))
        if unit != 'hartree':
            f = 2*(f//2) + 1
        elif k % 8 == 3:
            f = 2*(f//2)
        u = rng.integers(-1, 2, size=(nq, 3*na, na, 3, 2))
        u[..., 0, 0, 0] = 1
        if na > 1 and k % 6 == 0:
            u[:, 0] = 0
            u[:, 0, 1, 2, 1] = 2      # one atom only
        out.append({'id': k, 'f': np.sort(f, axis=1).tolist(),
                    'edges': edges, 'u': u.tolist(), 'unit': unit,
                    'w': [int(x) for x in rng.integers(0 if nq > 1 and
                                                       k % 7 == 0 else 1, 6,
                                                       size=nq)],
                    'mass': [int(x) for x in rng.integers(1, 9, size=na)],
                    'sp': [int(x) for x in rng.integers(0, 3, size=na)]})
        c = out[-1]
        if not any(c['w']):
            c['w'][0] = 1
        # one mass and cross section per species
        ms = rng.integers(1, 9, size=4)
        xs = rng.integers(1, 12, size=4)
        c['mass'] = [int(ms[s]) for s in c['sp']]
        c['xs'] = [int(xs[s]) for s in c['sp']]
    return out


def run(ck):
    cases = gen(ck)
    r = ck.tlc('Dos', cases=cases, invariants=[
        'AtMostOneBin', 'Total', 'PartsSum', 'AreaThree', 'Emit'])
    res = {e['id']: e for e in r.emitted}
    for c in cases:
        e = res[c['id']]
        lab = f'{c["unit"]} edges {c["edges"]} modes(half units) {c["f"]} ' \
              f'weights {c["w"]}'
        ck.replay('dos ' + lab, lambda: dos(c, e), case=c)
        ck.replay('dos map ' + lab, lambda: dosmap(c, e), case=c)
        ck.replay('pdos ' + lab, lambda: pdos(c, e), case=c)
        if c['id'] < 2:
            ck.sample({'c': {x: c[x] for x in ('f', 'edges', 'w')},
                       'dos': e['dos']})
    named(ck)
    refused(ck)
    ck.assumptions += ['modes at bin edges only where the edge is exactly '
                       'representable (hartree)']


def build(c, cls='modes'):
    from euphonic import (Crystal, QpointPhononModes, QpointFrequencies,
                          StructureFactor, ureg)
    cr = Crystal(np.diag([4., 5, 6])*ureg('angstrom'),
                 L.rng_for(c['id'], 'c12r').random((len(c['sp']), 3)),
                 np.array([SPEC[i] for i in c['sp']]),
                 np.array(c['mass'], dtype=float)*3*ureg('amu'))
    q = L.rng_for(c['id'], 'c12q').random((len(c['f']), 3))
    f = (np.array(c['f'], dtype=float)/2*STEP*ureg('hartree'))
    fu = UNITS[(c['id']//4) % 4] if c['unit'] != 'hartree' else 'hartree'
    f = f.to(fu, 'spectroscopy')
    w = np.array(c['w'], dtype=float)*[1, .1, 3][c['id'] % 3]
    bins = (np.array(c['edges'], dtype=float)*STEP*ureg('hartree')).to(
        c['unit'], 'spectroscopy')
    if cls == 'freqs':
        return QpointFrequencies(cr, q, f, weights=w), bins
    if cls == 'sf':
        return StructureFactor(cr, q, f, np.ones(f.shape)*ureg('mbarn'),
                               weights=w), bins
    u = np.array(c['u'], dtype=float)
    u = u[..., 0] + 1j*u[..., 1]
    u /= np.sqrt((np.abs(u)**2).sum(axis=(2, 3)))[:, :, None, None]
    if c['id'] % 2:
        u = np.asfortranarray(u)
    return QpointPhononModes(cr, q, f, u, weights=w), bins


def expect(a, unit):
    from euphonic import ureg
    a = np.array(a, dtype=float)
    a = a[..., 0]/a[..., 1]
    return a/(STEP*ureg('hartree').to(unit, 'spectroscopy').magnitude)


def inv_unit(qy, unit, extra=''):
    from euphonic import ureg
    want = ureg(f'{extra}{"*" if extra else ""}1/({unit})').units
    return qy.to(want).magnitude


def cmp(got, want, what):
    if got.shape != want.shape:
        return f'{what}: shape {got.shape} should be {want.shape}'
    sc = np.abs(want).max() or 1e-3
    if not np.abs(got - want).max() <= 1e-9*sc:
        i = np.unravel_index(np.abs(got - want).argmax(), got.shape)
        return f'{what} at {i}: {got[i]:.9g} should be {want[i]:.9g}'


def same_bins(x, bins):
    return str(x.units) == str(bins.units) and np.allclose(
        x.magnitude, bins.magnitude, rtol=1e-14, atol=1e-300)


def dos(c, e):
    for cls in ('freqs', 'modes', 'sf'):
        o, bins = build(c, cls)
        keep = bins.magnitude.copy()
        d = o.calculate_dos(bins)
        if not np.array_equal(keep, bins.magnitude):
            return 'bins changed'
        if not same_bins(d.x_data, bins):
            return 'bins are not the x axis'
        r = cmp(inv_unit(d.y_data, c['unit']), expect(e['dos'], c['unit']),
                cls)
        if r:
            return r


def dosmap(c, e):
    o, bins = build(c, ['freqs', 'modes'][c['id'] % 2])
    d = o.calculate_dos_map(bins)
    if not same_bins(d.y_data, bins):
        return 'bins are not the y axis'
    return cmp(inv_unit(d.z_data, c['unit']), expect(e['map'], c['unit']),
               f'map, weights {c["w"]}')


def pdos(c, e):
    from euphonic import ureg
    o, bins = build(c)
    d = o.calculate_pdos(bins)
    r = cmp(inv_unit(d.y_data, c['unit']), expect(e['pdos'], c['unit']),
            'pdos')
    if r:
        return r
    if not same_bins(d.x_data, bins):
        return 'bins are not the x axis'
    want = [{'index': i, 'species': SPEC[s]} for i, s in enumerate(c['sp'])]
    got = [d[i].metadata for i in range(len(want))]
    if got != want:
        return f'metadata {got}'
    # per species and total
    for s in set(c['sp']):
        y = inv_unit(d.select(species=SPEC[s]).sum().y_data, c['unit'])
        x = sum(expect(e['pdos'], c['unit'])[i] for i, t in enumerate(c['sp'])
                if t == s)
        r = cmp(y, x, f'species {SPEC[s]}')
        if r:
            return r
    r = cmp(inv_unit(d.sum().y_data, c['unit']), expect(e['dos'], c['unit']),
            'sum of parts')
    if r:
        return r
    cu = ['barn', 'mbarn', 'fm**2'][c['id'] % 3]
    xs = {SPEC[s]: (x*ureg('barn')).to(cu if i else 'barn')
          for i, (s, x) in enumerate(zip(c['sp'], c['xs']))}
    wt = [None, 'coherent', 'incoherent', 'coherent-plus-incoherent'][
        c['id'] % 4]
    d = o.calculate_pdos(bins, cross_sections=xs, weighting=wt)
    return cmp(inv_unit(d.y_data, c['unit'], 'barn'),
               expect(e['wdos'], c['unit']), 'cross-section weighted')


def named(ck):
    """named cross sections are those of the data file, coherent plus
    incoherent is their sum"""
    from euphonic import ureg
    with open(os.path.join(REPO, 'euphonic', 'data', 'bluebook.json')) as f:
        tab = json.load(f)['physical_property']
    for t in range(ck.pick(8, 40)):
        rng = L.rng_for(ck.seed, 'c12n', t)
        c = gen_one(rng, t)
        o, bins = build(c)
        plain = o.calculate_pdos(bins)
        y0 = plain.y_data.magnitude
        ms = np.array(c['mass'], dtype=float)

        def f():
            for wt in ('coherent', 'incoherent', 'coherent-plus-incoherent'):
                tot = 0
                for p in ('coherent', 'incoherent'):
                    if p in wt.split('-plus-'):
                        d = tab[p + '_cross_section']
                        tot = tot + np.array([
                            d[SPEC[s]]*ureg(d['__units__']).to(
                                'barn').magnitude for s in c['sp']])
                got = o.calculate_pdos(bins, weighting=wt)
                y = inv_unit(got.y_data, c['unit'], 'barn')
                want = inv_unit(plain.y_data, c['unit'])*(
                    tot*ms.mean()/ms)[:, None]
                r = cmp(y, want, wt)
                if r:
                    return r
                if got[0].metadata.get('weighting') != wt:
                    return f'metadata {got.metadata}'
        ck.replay(f'named cross sections {c["sp"]}', f, case=c)


def gen_one(rng, t):
    na = 3
    sp = rng.permutation(4)[:3]
    u = rng.integers(-2, 3, size=(2, 9, 3, 3, 2))
    u[..., 0, 0, 0] = 1
    return {'id': t, 'f': rng.integers(-3, 13, size=(2, 9)).tolist(),
            'edges': [-2, 0, 1, 4, 6], 'u': u.tolist(),
            'unit': UNITS[t % 3], 'w': [1, 3],
            'mass': [[28, 16, 23, 35][s] for s in sp],
            'sp': [int(s) for s in sp]}


def refused(ck):
    from euphonic import ureg
    c = gen_one(L.rng_for(ck.seed, 'c12x'), 1)
    o, bins = build(c)
    for kw, ex in (({'weighting': 'magic'}, ValueError),
                   ({'cross_sections': 3}, TypeError),
                   ({'cross_sections': {SPEC[s]: 1*ureg('fm')
                                        for s in range(4)}}, ValueError),
                   ({'adaptive_method': 'slow'}, ValueError)):
        def f():
            try:
                o.calculate_pdos(bins, **kw)
            except ex:
                return None
            return f'{kw} accepted'
        ck.replay(f'refuse {kw}', f)
