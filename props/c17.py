"""C17: broadening."""
import warnings
import numpy as np
from vf import lattice as L

ENERGY = ['meV', '1/cm', 'THz', 'hartree']
LENGTH = ['1/angstrom', '1/bohr', '1/nm']


def gauss(s, n):
    """FWHM of s bins: half height at s/2"""
    def w(d):
        return 2.**(-4*d*d/(s*s))
    return w, sum(w(d) for d in range(-200, 201))


def lorentz(s, n, step=1., m=None):
    m = n - 1 if m is None else m

    def w(d):
        return 1/((step*d)**2 + s*s/4)
    return w, sum(w(d) for d in range(-m, m + 1))


def cases(ck, rng):
    out = []
    for i in range(ck.pick(90, 900)):
        kind = ('1d', '1dc', 'x', 'y', 'xy')[i % 5]
        if kind in ('1d', '1dc'):
            n, on = [int(rng.integers(12, 26)), 1], [True, False]
        else:
            n = [int(rng.integers(5, 14)) for _ in range(2)]
            on = ['x' in kind, 'y' in kind]
        src = {}
        for _ in range(int(rng.integers(1, 5))):
            src[tuple(int(rng.integers(1, m + 1)) for m in n)] = int(
                rng.integers(-3, 9))
        out.append({'id': i, 'kind': kind, 'n': n, 'on': on,
                    'src': [[*p, v] for p, v in src.items()],
                    'cls': [1]*max(n)})
    return out


def variable(ck, rng):
    out = []
    for i in range(ck.pick(40, 400)):
        kind = ('1d', '1dc', 'x', 'y')[i % 4]
        m = int(rng.integers(60, 101))
        n = [m, 1] if kind[0] == '1' else [m, 2] if kind == 'x' else [2, m]
        # classes of widths along the axis
        style = i//4 % 3
        if style == 0:
            cls = [1]*m
        elif style == 1:
            cls = [1 + j for j in range(m)]
        else:
            cls = [1 + j//10 for j in range(m)]
        src = {}
        for _ in range(int(rng.integers(1, 4))):
            p = int(rng.integers(m//2 - 8, m//2 + 9))
            q = int(rng.integers(1, 3))
            src[(p, 1) if kind[0] == '1' else (p, q) if kind == 'x'
                else (q, p)] = int(rng.integers(1, 9))
        out.append({'id': 10000 + i, 'style': style, 'kind': kind, 'n': n,
                    'on': [kind != 'y', kind == 'y'],
                    'src': [[*p, v] for p, v in src.items()], 'cls': cls})
    return out


def run(ck):
    rng = L.rng_for(ck.seed, 'c17')
    cs = cases(ck, rng)
    vs = variable(ck, rng)
    r = ck.tlc('Broaden', cases=cs + vs, invariants=[
        'Direct', 'Mirrored', 'Whole', 'Emit'], timeout=1500)
    res = {e['id']: e['out'] for e in r.emitted}
    for c in cs:
        p = {'s': [float(rng.integers(4, 24))/4 for _ in range(2)],
             'h': [float(10**rng.uniform(-2, 1)) for _ in range(2)],
             'o': [float(rng.uniform(-3, 20)) for _ in range(2)],
             'xe': bool(rng.integers(2)), 'ye': bool(rng.integers(2)),
             'u': [ENERGY[rng.integers(4)] if c['kind'][0] == '1' and
                   rng.integers(2) else LENGTH[rng.integers(3)],
                   ENERGY[rng.integers(4)]],
             'method': [None, 'convolve'][rng.integers(2)]}
        for shape in ('gauss', 'lorentz'):
            fixed(ck, c, p, shape, res[c['id']])
        if c['id'] < 5:
            ck.sample({'case': c, 'params': p})
    for c in vs:
        p = {'h': float(10**rng.uniform(-2, 1)), 'o': float(rng.uniform(0, 9)),
             'u': ENERGY[rng.integers(4)] if c['kind'][0] == '1' and
             rng.integers(2) or c['kind'] == 'y' else LENGTH[rng.integers(3)],
             'base': float(rng.integers(6, 14))/4,
             'slope': float(rng.integers(1, 5))/80,
             'err': [.01, .002, .03][rng.integers(3)]}
        varied(ck, c, p, ('gauss', 'lorentz')[c['id'] % 2], res[c['id']])
    ck.notes['fixed'] = len(cs)*2
    ck.notes['variable'] = len(vs)
    refusals(ck, rng)


def units_like(u):
    return ENERGY if u in ENERGY else LENGTH


def make(c, data, x, y, lab):
    """x, y: Quantities, data: (n1, n2)"""
    from euphonic import Quantity
    from euphonic import spectra as S
    md = {'name': 'a', 'n': 3}
    if c['kind'] == '1d':
        return S.Spectrum1D(x, Quantity(data[:, 0], '1/meV'),
                            x_tick_labels=lab, metadata=md)
    if c['kind'] == '1dc':
        return S.Spectrum1DCollection(
            x, Quantity(np.array([data[:, 0], 2*data[::-1, 0]]), '1/meV'),
            x_tick_labels=lab,
            metadata={'line_data': [{'index': 0}, {'index': 1}], 'name': 'a'})
    return S.Spectrum2D(x, y, Quantity(data, 'mbarn'), x_tick_labels=lab,
                        metadata=md)


def evaluate(out, kern):
    """kern(cls) -> (weight along x, weight along y)"""
    a = np.zeros((len(out), len(out[0])))
    for i, row in enumerate(out):
        for j, terms in enumerate(row):
            a[i, j] = sum(v*kern(cl)(d1, d2) for d1, d2, cl, v in terms)
    return a


def got(s, kind):
    return (s.y_data.to('1/meV') if kind[0] == '1' else s.z_data.to('mbarn')
            ).magnitude


def carried(s, ref):
    """everything but the data"""
    if type(s) is not type(ref):
        return f'type {type(s)}'
    for a in ('x_data', 'y_data'):
        if a == 'y_data' and not hasattr(ref, 'z_data'):
            continue
        u, v = getattr(s, a), getattr(ref, a)
        if u.units != v.units or not np.array_equal(u.magnitude, v.magnitude):
            return f'{a} changed'
    if s.metadata != ref.metadata:
        return f'metadata {s.metadata}'
    if s.x_tick_labels != ref.x_tick_labels:
        return f'labels {s.x_tick_labels}'
    d = 'z_data' if hasattr(ref, 'z_data') else 'y_data'
    if getattr(s, d).units != getattr(ref, d).units:
        return f'unit {getattr(s, d).units}'


def fixed(ck, c, p, shape, out):
    from euphonic import Quantity
    n, on, s = c['n'], c['on'], p['s']
    data = np.zeros(n)
    for i, j, v in c['src']:
        data[i - 1, j - 1] = v

    def axis(k, edges):
        m = n[k] + (1 if edges else 0)
        return Quantity(p['o'][k] + p['h'][k]*np.arange(m), p['u'][k])
    x, y = axis(0, p['xe']), axis(1, p['ye'])
    lab = [None, [(0, 'a'), (3, 'b')]][c['id'] % 2]

    def want(step):
        k = []
        for ax in (0, 1):
            if not on[ax]:
                k.append((lambda d: 1., 1.))
            elif shape == 'gauss':
                k.append(gauss(s[ax], n[ax]))
            elif step:
                k.append(lorentz(s[ax], n[ax], (n[ax] - 1)/n[ax], n[ax]))
            else:
                k.append(lorentz(s[ax], n[ax]))

        def kern(cl):
            return lambda a, b: k[0][0](a)/k[0][1]*k[1][0](b)/k[1][1]
        return evaluate(out, kern), (k[0][0](0)/k[0][1]*k[1][0](0)/k[1][1]
                                     * max(abs(v) for *_, v in c['src']))

    def call(sp, wu):
        wx = Quantity(s[0]*p['h'][0], p['u'][0])
        wy = Quantity(s[1]*p['h'][1], p['u'][1])
        if wu:
            wx = wx.to(units_like(p['u'][0])[wu % len(units_like(p['u'][0]))])
            wy = wy.to(ENERGY[wu % 4])
        kw = {'shape': shape, 'method': p['method']}
        if c['kind'][0] == '1':
            return sp.broaden(wx, **kw)
        if on[0]:
            kw['x_width'] = wx
        if on[1]:
            kw['y_width'] = wy
        return sp.broaden(**kw)

    label = f'{c["kind"]} {shape} n={n} fwhm={s} bins {p["u"]}'

    def go():
        sp = make(c, data, x, y, lab)
        r = call(sp, c['id'] % 4)
        e = carried(r, sp)
        if e:
            return e
        a = got(r, c['kind'])
        if c['kind'] == '1dc':
            lines = [a[0][:, None], a[1][::-1, None]/2]
        elif c['kind'] == '1d':
            lines = [a[:, None]]
        else:
            lines = [a]
        w, top = want(False)
        tol = 6e-4*top*(1 + on[0]*on[1]) if shape == 'gauss' else 2e-2*top
        bad = max(np.abs(b - w).max() for b in lines)
        if bad > tol + 1e-12:
            if shape == 'lorentz':
                w2, top = want(True)
                if max(np.abs(b - w2).max() for b in lines) < 1e-9*(1 + top):
                    return 'known'
            b = max(lines, key=lambda b: np.abs(b - w).max())
            i = np.unravel_index(np.abs(b - w).argmax(), w.shape)
            return f'at {i}: {b[i]:.6g} should be {w[i]:.6g}'
        if not np.array_equal(got(sp, c['kind']).reshape(-1)[:data.size],
                              data.reshape(-1)):
            return 'the operand has changed'
        # the same in other units
        sp2 = make(c, data, x, y, lab)
        sp2.x_data_unit = units_like(p['u'][0])[c['id'] % 3]
        if c['kind'][0] != '1':
            sp2.y_data_unit = ENERGY[c['id'] % 3]
            sp2.z_data_unit = 'angstrom**2'
        else:
            sp2.y_data_unit = '1/hartree'
        a2 = got(call(sp2, 0), c['kind'])
        if np.abs(a2 - a).max() > 1e-9*(1 + top):
            return f'other result in units {sp2.x_data_unit}'
        # linear
        sp3 = make(c, -3*data, x, y, lab)
        a3 = got(call(sp3, 0), c['kind'])
        if np.abs(a3 + 3*a).max() > 1e-9*(1 + top):
            return 'not linear'

    def key():
        e = go()
        if e == 'known':
            ck.violation(label + ': Lorentzian kernel',
                         key='lorentz-kernel-spacing')
            return None
        return e
    ck.replay(label, key, case={'case': c, 'params': p})


def varied(ck, c, p, shape, out):
    """width given as a function of the position"""
    from euphonic import Quantity
    ax = 1 if c['on'][1] else 0
    m = c['n'][ax]
    data = np.zeros(c['n'])
    for i, j, v in c['src']:
        data[i - 1, j - 1] = v
    e = Quantity(p['o'] + p['h']*np.arange(m + 1), p['u'])
    mid = p['o'] + p['h']*(np.arange(m) + .5)
    style = c['style']
    # width (standard deviation or half width) in bins of each class
    nmax = max(c['cls'])
    if style == 0:
        wid = {1: p['base']}
    elif style == 1:
        wid = {k: p['base'] + p['slope']*(k - 1)/2 for k in range(1, nmax + 1)}
    else:
        wid = {k: p['base']*1.12**(k - 1) for k in range(1, nmax + 1)}
    f = 8**.5*np.log(2)**.5
    conv = 'fwhm' if shape == 'lorentz' or c['id'] % 3 else 'std'
    scale = (f if shape == 'gauss' and conv == 'fwhm' else 1.)*p['h']
    if shape == 'lorentz':
        scale *= 2

    def width(x):
        u = x.to(p['u']).magnitude
        j = np.clip(np.floor((u - p['o'])/p['h']), 0, m - 1).astype(int)
        return Quantity(np.array([wid[c['cls'][k]] for k in j.ravel()]
                                 ).reshape(j.shape)*scale, p['u'])
    ot = Quantity(np.array([0., 1., 3.]), 'meV' if ax == 0 else '1/angstrom')
    x, y = (e, ot) if ax == 0 else (ot, e)
    label = (f'{c["kind"]} {shape} variable {conv} style {style} n={m} '
             f'error={p["err"]}')

    def go():
        sp = make(c, data, x, y, None)
        kw = {'shape': shape, 'width_convention': conv,
              'width_interpolation_error': p['err']}
        if shape == 'gauss' and c['id'] % 5 == 0:
            kw['width_fit'] = 'cubic'
        low = [None, Quantity(0., p['u']), Quantity(p['h'], p['u'])][c['id'] % 3]
        with warnings.catch_warnings():
            warnings.simplefilter('error', UserWarning)
            if c['kind'][0] == '1':
                r = sp.broaden(width, width_lower_limit=low, **kw)
            else:
                a = 'xy'[ax]
                r = sp.broaden(**{a + '_width': width,
                                  a + '_width_lower_limit': low}, **kw)
        bad = carried(r, sp)
        if bad:
            return bad
        a = got(r, c['kind'])
        if c['kind'] == '1d':
            lines = [a[:, None]]
        elif c['kind'] == '1dc':
            lines = [a[0][:, None]]
            if style == 0:
                lines.append(a[1][::-1, None]/2)
        else:
            lines = [a]

        def kern(cl):
            w = wid[cl]

            def f(d1, d2):
                d = d1 if ax == 0 else d2
                if shape == 'gauss':
                    return np.exp(-d*d/(2*w*w))/(w*np.sqrt(2*np.pi))
                return w/np.pi/(d*d + w*w)
            return f
        want = evaluate(out, kern)
        # distant tails are not followed
        far = np.abs(np.arange(m) - m/2) < m/2 - 10
        sel = (far[:, None] if ax == 0 else far[None]) & np.ones(
            want.shape, dtype=bool)
        area = sum(v for *_, v in c['src'])
        for b in lines:
            d = np.abs(b - want)[sel].sum()/area
            if d > 1.3*p['err'] + 1e-3:
                return (f'area between the curves {d:.4g} of the total, '
                        f'error should be {p["err"]}')
    ck.replay(label, go, case={'case': c, 'params': p})


def refusals(ck, rng):
    from euphonic import Quantity
    from euphonic import spectra as S
    for u in ENERGY + ['joule', 'eV']:
        bins = Quantity(np.array([0., 1., 2., 3., 5., 7.]), 'meV').to(u)
        even = Quantity(np.arange(6.)*.01, 'meV').to(u)
        width = Quantity(1., 'meV')
        y = Quantity(np.arange(5.), 'mbarn')

        def specs(b):
            z = Quantity(np.arange(20.).reshape(5, 4), 'mbarn')
            other = Quantity(np.array([0., 1., 3., 4.]), '1/angstrom')
            return [
                ('1d', S.Spectrum1D(b, y), lambda s, **k: s.broaden(width, **k)),
                ('1dc', S.Spectrum1DCollection(
                    b, Quantity(np.array([y.magnitude]*2), 'mbarn')),
                 lambda s, **k: s.broaden(width, **k)),
                ('2dx', S.Spectrum2D(b, other, z),
                 lambda s, **k: s.broaden(x_width=width, **k)),
                ('2dy', S.Spectrum2D(other, b, z.T),
                 lambda s, **k: s.broaden(y_width=width, **k))]
        for name, s, f in specs(bins):
            def none():
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        f(s)
                except ValueError:
                    return
                return 'uneven bins broadened'
            ck.replay(f'{name} uneven {u}', none)

            def conv():
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    f(s, method='convolve')
                if not any(issubclass(v.category, UserWarning) for v in w):
                    return 'no warning about uneven bins'
            ck.replay(f'{name} uneven convolve {u}', conv)
        for name, s, f in specs(even):
            def fine():
                with warnings.catch_warnings():
                    warnings.simplefilter('error', UserWarning)
                    f(s)
            ck.replay(f'{name} even {u}', fine)

            def shape():
                for k in ({'shape': 'unknown'}, {'method': 'unknown'}):
                    try:
                        f(s, **k)
                    except ValueError:
                        continue
                    return f'{k} accepted'
            ck.replay(f'{name} bad options {u}', shape)
        s = specs(bins)[0][1]

        def func():
            for t in (s, specs(bins)[1][1]):
                try:
                    t.broaden(lambda x: 0*x + width)
                except AssertionError:
                    continue
                return 'uneven bins broadened with a width function'
        ck.replay(f'1d uneven function {u}', func)

        def types():
            for t in (s, specs(bins)[1][1]):
                try:
                    t.broaden(1.)
                except TypeError:
                    continue
                return 'plain number accepted as width'
        ck.replay('width type', types)
