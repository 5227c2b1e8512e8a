"""C15: spectrum collections keep data and metadata together."""
import numpy as np
from vf import lattice as L

UNITS = ['1/meV', '1/hartree', '1/THz', '1/(1/cm)']
KEYS = ['species', 'index', 'label', 'weighting']
VALS = ['Na', 2, 'Cl']
NX = 3


def md(pairs):
    return {KEYS[k - 1]: VALS[v - 1] for k, v in pairs}


def run(ck):
    steps = 8
    total = ck.pick(60, 1200)
    r = ck.tlc('Collect', constants={
        'NKeys': 4, 'NVals': 3, 'NX': NX, 'MaxLines': 7, 'MaxSteps': steps,
        'Units': 4}, invariants=['Restores', 'Separate', 'GroupSum',
                                 'GroupOnce', 'Emit'],
        simulate=total, depth=steps + 2, seed=ck.seed)
    rng = L.rng_for(ck.seed, 'c15')
    em = r.emitted
    idx = rng.permutation(len(em))[:ck.pick(150, 3000)]
    ops = {}
    for k, i in enumerate(idx):
        h = em[i]
        for s in h:
            ops[s['op'] + ('' if s['ok'] else ' refused')] = ops.get(
                s['op'] + ('' if s['ok'] else ' refused'), 0) + 1
        for dim in ((1, 2) if k % 3 == 0 else (1,) if k % 3 == 1 else (2,)):
            ck.replay(f'{dim}D ' + ' '.join(s['op'] for s in h),
                      lambda: one(h, dim, k), case=h)
        if k < 2:
            ck.sample([[s['op'], s['args'], s['ok']] for s in h])
    ck.notes['calls'] = ops
    more(ck)
    ck.assumptions += ['metadata values are strings and integers, as '
                       'documented', 'slices stop below the number of lines '
                       'or are open (a stop at or beyond it is refused)']


def data(ls, dim):
    y = np.array([l['y'] for l in ls], dtype=float)
    return y if dim == 1 else y[:, :, None]*np.array([1., 10.])


def labels(k):
    return [None, [], [(0, 'X'), (2, 'Y')]][k % 3]


def fresh(ls, dim, how, k):
    from euphonic import ureg
    from euphonic.spectra import (Spectrum1D, Spectrum2D, Spectrum1DCollection,
                                  Spectrum2DCollection)
    x = np.arange(NX + k % 2)*1.5*ureg(['meV', '1/cm'][k % 2])
    e = np.arange(2 + (k//2) % 2)*2.*ureg('meV')
    d = data(ls, dim)*ureg('1/meV')
    ms = [md(l['md']) for l in ls]
    C = Spectrum1DCollection if dim == 1 else Spectrum2DCollection
    bins = (x,) if dim == 1 else (x, e)
    if how == 1:
        S = Spectrum1D if dim == 1 else Spectrum2D
        return C.from_spectra([S(*bins, v, x_tick_labels=labels(k),
                                 metadata=dict(m)) for v, m in zip(d, ms)])
    if how == 2 and any(ms):
        # everything in line_data, nothing factored out
        return C(*bins, d, x_tick_labels=labels(k),
                 metadata={'line_data': [dict(m) for m in ms]})
    common = {q: v for q, v in ms[0].items()
              if all(q in m and m[q] == v for m in ms)}
    rest = [{q: v for q, v in m.items() if q not in common} for m in ms]
    meta = dict(common)
    if any(rest):
        meta['line_data'] = rest
    return C(*bins, d, x_tick_labels=labels(k), metadata=meta)


def vals(q):
    return q.to('1/meV', 'reciprocal_spectroscopy').magnitude


def look(o, step, dim, k, strict):
    """everything observable about a collection"""
    from euphonic import ureg
    from euphonic.spectra import (Spectrum1D, Spectrum2D, Spectrum1DCollection,
                                  Spectrum2DCollection)
    ob = step['obs']
    n = len(ob['lines'])
    C = Spectrum1DCollection if dim == 1 else Spectrum2DCollection
    S = Spectrum1D if dim == 1 else Spectrum2D
    if type(o) is not C:
        return f'type {type(o)}'
    if len(o) != n:
        return f'{len(o)} lines, should be {n}'
    get = (lambda s: s.y_data) if dim == 1 else (lambda s: s.z_data)
    want = data(ob['lines'], dim)
    unit = UNITS[step['unit'] - 1]
    if get(o).units != ureg(unit).units:
        return f'unit {get(o).units}, should be {unit}'
    sc = 1e-9*max(1., np.abs(want).max())
    if vals(get(o)).shape != want.shape or \
            np.abs(vals(get(o)) - want).max() > sc:
        return f'data {vals(get(o)).tolist()} should be {want.tolist()}'
    meta = md(ob['common'])
    rest = [md(p) for p in ob['rest']]
    if any(rest):
        meta['line_data'] = rest
    if strict and o.metadata != meta:
        return f'metadata {o.metadata} should be {meta}'
    each = [md(l['md']) for l in ob['lines']]
    if [dict(m) for m in o.iter_metadata()] != each:
        return f'iter_metadata {list(o.iter_metadata())} should be {each}'
    its = list(o)
    if len(its) != n:
        return 'iteration'
    for i, s in enumerate(its):
        for t in (s, o[i], o[i - n], o[np.int64(i)]):
            if type(t) is not S:
                return f'item type {type(t)}'
            if t.metadata != each[i]:
                return f'line {i} metadata {t.metadata} should be {each[i]}'
            if np.abs(vals(get(t)) - want[i]).max() > sc or \
                    get(t).units != get(o).units:
                return f'line {i} data'
            for a in ('x_data', 'y_data')[:dim]:
                u, v = getattr(t, a), getattr(o, a)
                if u.units != v.units or not np.array_equal(
                        u.magnitude, v.magnitude):
                    return f'line {i} {a}'
            if t.x_tick_labels != labels(k):
                return f'labels {t.x_tick_labels}'
    if o.x_tick_labels != labels(k):
        return f'labels {o.x_tick_labels}'
    t = o.sum()
    w = data([ob['sum']], dim)[0]
    if type(t) is not S or np.abs(vals(get(t)) - w).max() > sc:
        return f'sum {vals(get(t)).tolist()} should be {w.tolist()}'
    if get(t).units != get(o).units:
        return f'unit of sum {get(t).units}'
    if t.metadata != md(ob['sum']['md']):
        return f'metadata of sum {t.metadata}'
    if t.x_tick_labels != labels(k):
        return 'labels of sum'
    if dim == 1 and n > 1:
        t = o[0] + o[1]
        w = want[0] + want[1]
        m = {q: v for q, v in each[0].items()
             if q in each[1] and each[1][q] == v}
        if np.abs(vals(t.y_data) - w).max() > sc or t.metadata != m:
            return f'sum of two spectra {t.metadata} {m}'
    for bad in (n, -n - 1):
        try:
            o[bad]
            return f'index {bad} of {n} accepted'
        except IndexError:
            pass
    return None


def one(h, dim, k):
    o = None
    strict = True
    for i, s in enumerate(h):
        a, op = s['args'], s['op']
        where = f'after {[x["op"] for x in h[:i + 1]]} {a}: '
        prev = o
        if op == 'new':
            o = fresh(s['obs']['lines'], dim, a[0], k)
            strict = a[0] != 2
        else:
            try:
                r = apply(o, s, dim, k, h)
            except (IndexError, ValueError) as ex:
                if s['ok']:
                    raise
                if op == 'select' and not isinstance(ex, ValueError):
                    return where + f'{ex!r}'
                r = o
            else:
                if not s['ok']:
                    return where + 'was accepted'
                if op in ('take', 'slice', 'addself', 'addnew', 'select',
                          'group'):
                    strict = True
            o = r
        r = look(o, s, dim, k, strict)
        if r:
            return where + r
        if prev is not None and prev is not o:
            r = look(prev, h[i - 1], dim, k, False)
            if r:
                return where + 'operand: ' + r
    return None


def apply(o, s, dim, k, h):
    a, op = s['args'], s['op']
    if op == 'take':
        if k % 3 == 0:
            return o[np.array(a)]
        return o[list(a)]
    if op == 'slice':
        lo, hi, st = a
        return o[slice(lo if lo or k % 2 else None, None if hi == -99 else hi,
                       None if st == 1 and k % 2 else st)]
    if op == 'addself':
        return o + o[list(a)]
    if op == 'addnew':
        n = fresh(a, dim, 1 + k % 3, k)
        # same units are needed
        name = 'y_data_unit' if dim == 1 else 'z_data_unit'
        setattr(n, name, UNITS[s['unit'] - 1])
        return o + n
    if op == 'select':
        kw = {}
        for key, vs in a:
            v = [VALS[x - 1] for x in vs]
            kw[KEYS[key - 1]] = v[0] if len(v) == 1 and k % 2 else (
                tuple(v) if k % 3 else v)
        return o.select(**kw)
    if op == 'group':
        return o.group_by(*[KEYS[x - 1] for x in a])
    if op == 'unit':
        setattr(o, 'y_data_unit' if dim == 1 else 'z_data_unit',
                UNITS[a[0] - 1])
        return o
    if op == 'scale':
        if k % 2:
            return o*a[0]
        o2 = o.copy()
        o2 *= a[0]
        return o2
    if op == 'copy':
        return o.copy()
    raise AssertionError(op)


def more(ck):
    """refusals and spectra with different units"""
    from euphonic import ureg
    from euphonic.spectra import (Spectrum1D, Spectrum2D, Spectrum1DCollection,
                                  Spectrum2DCollection)
    ls = [{'y': [1, 2, 3], 'md': [[1, 1]]}, {'y': [4, 5, 6], 'md': [[1, 3]]}]
    for dim in (1, 2):
        o = fresh(ls, dim, 1, 0)
        C = type(o)
        for bad, ex in ((1.5, TypeError), ([0, 1.], TypeError),
                        ([True, 'a'], TypeError), (np.array([.5]), TypeError),
                        ('a', TypeError)):
            def f():
                try:
                    o[bad]
                except ex:
                    return
                return 'accepted'
            ck.replay(f'{dim}D index {bad!r}', f)

        def empty():
            try:
                C.from_spectra([])
            except IndexError:
                return
            return 'accepted'
        ck.replay(f'{dim}D from no spectra', empty)

        def wrong():
            try:
                C.from_spectra([o[0], o])
            except (TypeError, AssertionError):
                return
            return 'accepted'
        ck.replay(f'{dim}D from a collection', wrong)

        def axes():
            a, b = o[0], o[1]
            b.x_data = b.x_data*2
            try:
                C.from_spectra([a, b])
            except (ValueError, AssertionError):
                return
            return 'spectra on different axes accepted'
        ck.replay(f'{dim}D different axes', axes)

        def lines():
            m = {'line_data': [{'a': 1}]*3}
            try:
                C(*((o.x_data, o.y_data) if dim == 1 else
                    (o.x_data, o.y_data, o.z_data)), metadata=m)
            except ValueError:
                return
            return '3 line_data entries for 2 lines accepted'
        ck.replay(f'{dim}D line_data length', lines)

        # spectra whose units were changed before
        for us in ((0, 0), (1, 1), (3, 3), (2, 2)):
            def units():
                a, b = o[0], o[1]
                nm = 'y_data_unit' if dim == 1 else 'z_data_unit'
                setattr(a, nm, UNITS[us[0]])
                setattr(b, nm, UNITS[us[1]])
                s = C.from_spectra([a, b])
                get = s.y_data if dim == 1 else s.z_data
                if np.abs(vals(get) - data(ls, dim)).max() > 1e-9:
                    return f'data {vals(get).tolist()}'
            ck.replay(f'{dim}D from spectra shown in {UNITS[us[0]]}', units)
