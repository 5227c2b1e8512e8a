"""C16: bin edges, centres, splitting and tick labels."""
import numpy as np
from vf import lattice as L

NAMES = ['X', 'Y', '$\\Gamma$']
UNITS = ['meV', '1/cm', 'hartree', '1/angstrom']


def run(ck):
    inv = ['Whole', 'Labelled', 'Tile', 'Emit']
    rng = L.rng_for(ck.seed, 'c16')
    hs = []
    # every axis of up to 3 (4) points, every cut, twice
    r = ck.tlc('Axis', constants={
        'MaxN': ck.pick(3, 4), 'MaxSteps': ck.pick(1, 2), 'Gaps': {1, 2, 30},
        'Tols': {(10, 1)}, 'Small': True}, invariants=inv)
    em = r.emitted
    hs += [em[i] for i in rng.permutation(len(em))[:ck.pick(250, 3000)]]
    r = ck.tlc('Axis', constants={
        'MaxN': 9, 'MaxSteps': 3, 'Gaps': {1, 2, 3, 11, 24, 60},
        'Tols': {(10, 1), (23, 1), (5, 2), (21, 2)}, 'Small': False},
        invariants=inv, simulate=ck.pick(60, 600), depth=5, seed=ck.seed)
    em = r.emitted
    hs += [em[i] for i in rng.permutation(len(em))[:ck.pick(250, 4000)]]
    for k, h in enumerate(hs):
        kind = ('1d', '1dc', '2d', '2dc')[k % 4]
        ck.replay(f'{kind} ' + str([(s['op'], s['k'], s['args']) for s in h]),
                  lambda: one(h, kind, k), case=h)
        if k % 200 == 0:
            ck.sample([[s['op'], s['args'], [p['x'] for p in s['pieces']]]
                       for s in h])
    refusals(ck)


def build(p, kind, k):
    from euphonic import Quantity
    from euphonic import spectra as S
    x = Quantity(np.array(p['x'], dtype=float), UNITS[k//4 % 4])
    n = len(p['id'])
    ids = np.array(p['id'], dtype=float)
    lab = [(i, NAMES[j - 1]) for i, j in p['labels']]
    if not lab and k % 5 == 0:
        lab = None
    y = Quantity(np.array([0., 1., 2.5][:2 + k % 2]), 'meV')
    c = {'name': 'a', 'n': 3}
    lines = {'line_data': [{'index': 0}, {'index': 1}], 'name': 'a'}
    if kind == '1d':
        return S.Spectrum1D(x, Quantity(ids, '1/meV'), x_tick_labels=lab,
                            metadata=c)
    if kind == '1dc':
        return S.Spectrum1DCollection(x, Quantity(np.array([ids, 10 + ids]),
                                                  'meV'), x_tick_labels=lab,
                                      metadata=lines)
    z = np.array([ids, 10 + ids]).T
    if kind == '2d':
        return S.Spectrum2D(x, y, Quantity(z, 'mbarn'), x_tick_labels=lab,
                            metadata=c)
    return S.Spectrum2DCollection(x, y, Quantity(np.array([z, 100 + z]),
                                                 'mbarn'), x_tick_labels=lab,
                                  metadata=lines)


def near(q, want, unit, what):
    m = q.to(unit).magnitude
    want = np.array(want, dtype=float)
    if np.shape(m) != want.shape:
        return f'{what}: {len(m)} values, should be {len(want)}'
    if np.abs(m - want).max(initial=0) > 1e-9*(1 + np.abs(want).max(initial=0)):
        return f'{what}: {m.tolist()} should be {want.tolist()}'


def look(s, p, kind, k, first, ref):
    u = UNITS[k//4 % 4]
    if type(s) is not type(ref):
        return f'type {type(s)}'
    r = near(s.x_data, p['x'], u, 'x')
    if r:
        return r
    shown = build(p, kind, k)
    for d in ('y_data', 'z_data'):
        if hasattr(ref, d):
            a, b = getattr(s, d), getattr(shown, d)
            if a.shape != b.shape or not np.allclose(
                    a.magnitude, b.magnitude, rtol=1e-12) or \
                    a.units != getattr(ref, d).units:
                return f'{d} {a} should be {b}'
    if s.metadata != ref.metadata:
        return f'metadata {s.metadata}'
    want = [(i, NAMES[j - 1]) for i, j in p['labels']]
    if ref.x_tick_labels is None:
        want = None
    if s.x_tick_labels != want:
        return f'labels {s.x_tick_labels} should be {want}'
    if want and not all(type(i) is int for i, _ in s.x_tick_labels):
        return 'label index is not a plain int'
    arg = [((), {}), (('x',), {}), ((), {'bin_ax': 'x'})]
    for a, kw in arg if kind[:2] == '2d' else arg[:1]:
        r = (near(s.get_bin_edges(*a, **kw), np.array(p['edges2'])/2, u, 'edges')
             or near(s.get_bin_centres(*a, **kw), np.array(p['centres2'])/2, u,
                     'centres')
             or near(s.get_bin_widths(*a, **kw), np.array(p['widths2'])/2, u,
                     'widths'))
        if r:
            return r
        if k % 3 == 0:
            try:
                s.assert_regular_bins(*(a or (() if kw else ('x',))
                                        if kind[:2] == '2d' else ()), **kw)
            except AssertionError:
                if p['regular']:
                    return 'bins refused as irregular'
            else:
                if not p['regular']:
                    return 'irregular bins accepted'
    if kind[:2] == '2d':
        e = [[0., .5, 1.], [0., 1., 2.5]][k % 2]
        c = [[0., 1.], [.5, 1.75]][k % 2]
        r = (near(s.get_bin_edges('y'), e, 'meV', 'y edges')
             or near(s.get_bin_centres('y'), c, 'meV', 'y centres')
             or near(s.get_bin_widths('y'), np.diff(e), 'meV', 'y widths'))
        if r:
            return r


def one(h, kind, k):
    ref = build(h[0]['pieces'][0], kind, k)
    if k % 7 == 3 and k//4 % 4 < 3:
        # shown in another unit
        ref.x_data_unit = 'THz'
    cur = [ref]
    for n, st in enumerate(h):
        if n:
            i = st['k'] - 1
            if st['op'] == 'indices':
                a = st['args']
                a = (a, tuple(a), np.array(a, dtype=int))[k % 3]
                new = cur[i].split(indices=a) if k % 2 else cur[i].split(a)
            else:
                t = st['args'][0]/st['args'][1]
                new = cur[i].split() if t == 10 and k % 2 else \
                    cur[i].split(btol=t)
            cur = cur[:i] + list(new) + cur[i + 1:]
        if len(cur) != len(st['pieces']):
            return f'{len(cur)} pieces, should be {len(st["pieces"])}'
        for j, (s, p) in enumerate(zip(cur, st['pieces'])):
            r = look(s, p, kind, k, h[0]['pieces'][0], ref)
            if r:
                return f'step {n} piece {j}: {r}'
    r = look(ref, h[0]['pieces'][0], kind, k, None, ref)
    return r and 'the original has changed: ' + r


def refusals(ck):
    from euphonic import Quantity
    p = {'x': [1, 2, 4], 'id': [1, 2, 3], 'labels': [], }
    for k, kind in enumerate(('1d', '1dc', '2d', '2dc')):
        s = build(p, kind, k)

        def both():
            try:
                s.split(indices=[1], btol=3.)
            except ValueError:
                return
            return 'indices and btol accepted together'
        ck.replay(f'{kind} both', both)
        for bad in ([(0., 'a')], [('0', 'a')], [(0, 1)], [[0, 'a']],
                    [(0, 'a', 'b')], 4, [0]):
            def f():
                old = s.x_tick_labels
                try:
                    s.x_tick_labels = bad
                except TypeError:
                    return None if s.x_tick_labels == old else 'changed'
                return f'labels {bad} accepted'
            ck.replay(f'{kind} labels {bad}', f)

        def ints():
            s.x_tick_labels = ((np.int64(1), 'a'), (np.int32(2), 'b'))
            if s.x_tick_labels != [(1, 'a'), (2, 'b')] or \
                    type(s.x_tick_labels[0][0]) is not int:
                return f'{s.x_tick_labels}'
        ck.replay(f'{kind} numpy label index', ints)

        def size():
            # neither edges nor centres
            t = build(p, kind, k)
            t._x_data = np.arange(7.)
            for f in (t.get_bin_edges, t.get_bin_centres, t.get_bin_widths):
                try:
                    f()
                except ValueError:
                    continue
                return 'axis of wrong length accepted'
        if kind != '2dc':
            ck.replay(f'{kind} axis length', size)
