"""C26: sampling of squares, spheres and reciprocal space; powder averages."""
import contextlib
import io
import numpy as np
from vf import lattice as L

DEN = 500000
R5 = np.sqrt(np.longdouble(5))


def gen(ck):
    rng = L.rng_for(ck.seed, 'c26')
    out = []

    def add(kind, n, off=True):
        c = {'id': len(out), 'kind': kind, 'n': [int(x) for x in n], 'off': off,
             'den': DEN, 'cos': [DEN, -DEN]}
        if kind == 'rings':
            nt = int(np.sqrt(np.pi/4*n[0]))
            c['cos'] = [int(round(DEN*np.cos(j*np.pi/nt))) for j in range(nt + 1)]
        out.append(c)
    for n in (1, 2, 3, 5, 7):
        add('golden', [n, 1], bool(n % 2))
    for n in rng.integers(4, 200, ck.pick(12, 60)):
        add('golden', [n, 1], bool(rng.integers(3)))
    grids = [(1, 1), (1, 2), (2, 1), (1, 5), (4, 1), (2, 2)]
    grids += [tuple(rng.integers(1, 11, 2)) for _ in range(ck.pick(12, 80))]
    for g in grids:
        add('square', g, bool(rng.integers(2)))
        add('polar', g)
    for n in (6, 7, 8, 9, 10, 12, 13, 216, 217):
        add('rings', [n, 1])
    for n in rng.integers(11, 400, ck.pick(14, 120)):
        add('rings', [n, 1])
    for n in ((1, 1, 1), (2, 1, 1), (1, 2, 3), (3, 3, 3), (4, 2, 1)):
        add('mp', n)
    for _ in range(ck.pick(12, 80)):
        add('mp', rng.integers(1, 8, 3))
    return out


def same_sets(a, b, tol, periods=None):
    """each point of one set is one of the other"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    left = list(range(len(b)))
    for x in a:
        d = np.abs(b[left] - x)
        if periods is not None:
            d = np.minimum(d, np.abs(d - periods))
        j = int(np.argmin(d.max(axis=1)))
        if d[j].max() > tol:
            return False
        left.pop(j)
    return True


def sphere(sq):
    """points of the square on the sphere: z, azimuth/2 pi"""
    sq = np.asarray(sq)
    return np.stack([2*sq[:, 0] - 1, sq[:, 1] % 1], -1)


def as_z_turn(p, cartesian):
    p = np.asarray(list(p), dtype=float).reshape(-1, 3)
    if cartesian:
        if np.abs((p**2).sum(1) - 1).max() > 1e-12:
            raise Bad('points are not on the unit sphere')
        return np.stack([p[:, 2], (np.arctan2(p[:, 1], p[:, 0])/2/np.pi) % 1], -1)
    if not (p[:, 0] == 1).all():
        raise Bad('radius is not 1')
    if (p[:, 2] < -1e-12).any() or (p[:, 2] > np.pi + 1e-12).any():
        raise Bad('polar angle outside 0 to pi')
    return np.stack([np.cos(p[:, 2]), (p[:, 1]/2/np.pi) % 1], -1)


class Bad(Exception):
    pass


def one(c, e, rng):
    try:
        return _one(c, e, rng)
    except Bad as x:
        return str(x)


def square_points(c, e):
    if c['kind'] == 'golden':
        return np.array([[p[0][0]/p[0][1],
                          float((p[1][0]*R5 - p[1][0] - 2*p[1][1])/2)]
                         for p in e['pts']])
    return np.array([[x[0]/x[1] for x in p] for p in e['pts']])


def in_cells(got, c, want, h):
    """displaced by at most h from the i-th point, modulo 1"""
    d = got - want
    d -= np.rint(d)
    return (np.abs(d) <= np.array(h) + 1e-12).all()


def _one(c, e, rng):
    from euphonic import sampling as S, util
    n = c['n']
    k = c['kind']
    want = square_points(c, e) if k != 'rings' else None
    if k == 'mp':
        got = util.mp_grid(tuple(n))
        if not same_sets(got, want, 1e-14):
            return f'grid {n}: {got.tolist()}'[:300]
        if not same_sets(got, -got, 0):
            return f'grid {n} is not symmetric under inversion'
        return None
    if k in ('golden', 'square'):
        f = (lambda **kw: S.golden_square(n[0], offset=c['off'], **kw)) \
            if k == 'golden' else \
            (lambda **kw: S.regular_square(n[0], n[1], offset=c['off'], **kw))
        got = np.array(list(f())).reshape(-1, 2)
        if not same_sets(got, want, 1e-12):
            return f'{k} {n} offset={c["off"]}: {got.tolist()} not {want.tolist()}'[:400]
        if got.min() < 0 or got.max() >= 1:
            return f'{k} {n}: points outside the square'
        g = np.array(list(f(jitter=True))).reshape(-1, 2)
        if g.shape != want.shape or g.min() < 0 or g.max() > 1:
            return f'{k} {n} with jitter: points outside the square {g.min()} {g.max()}'
        if np.abs(g - want).max() == 0 or len(np.unique(g, axis=0)) < len(g):
            return f'{k} {n}: no jitter'
        if k == 'golden':
            if not in_cells(g, c, want, [.5/np.sqrt(n[0])]*2):
                return f'golden {n}: jittered too far'
        else:
            cells = np.floor((g - want[0])*[n[1], n[0]] + .5)
            cells = {tuple(x) for x in cells % [n[1], n[0]]}
            if len(cells) != len(g):
                return f'square {n}: jitter leaves the cells'
        if not c['off']:
            return None
        w = sphere(want)
        for cart in True, False:
            p = S.golden_sphere(n[0], cartesian=cart) if k == 'golden' else \
                S.sphere_from_square_grid(n[0], n[1], cartesian=cart)
            z = as_z_turn(p, cart)
            if not same_sets(z, w, 1e-9, np.array([1e9, 1.])):
                return f'{k} sphere {n}: {z.tolist()} not {w.tolist()}'[:400]
            p = S.golden_sphere(n[0], cartesian=cart, jitter=True) \
                if k == 'golden' else \
                S.sphere_from_square_grid(n[0], n[1], cartesian=cart, jitter=True)
            z = as_z_turn(p, cart)
            z[:, 0] = (z[:, 0] + 1)/2
            if len(z) != len(want):
                return f'{k} sphere {n} with jitter: {len(z)} points'
            if k == 'golden' and not in_cells(z, c, want, [.5/np.sqrt(n[0])]*2):
                return f'golden sphere {n}: jittered too far'
            if k == 'square' and len({tuple(x) for x in np.floor(
                    z*[n[1], n[0]] - 1e-13)}) != len(z):
                return f'square sphere {n}: jitter leaves the cells'
        return None
    for cart in True, False:
        for jit in False, True:
            f = S.spherical_polar_grid(n[0], n[1], cartesian=cart, jitter=jit) \
                if k == 'polar' else \
                S.spherical_polar_improved(n[0], cartesian=cart, jitter=jit)
            z = as_z_turn(f, cart)
            turn, ang = z[:, 1], np.arccos(z[:, 0])/np.pi
            what = f'{k} {n} cartesian={cart} jitter={jit}'
            if k == 'polar':
                if len(z) != n[0]*n[1]:
                    return f'{what}: {len(z)} points'
                if not jit:
                    w = want.copy()
                    w[:, 0] %= 1
                    if not same_sets(np.stack([turn, ang], -1), w, 1e-8,
                                     np.array([1., 1e9])):
                        return f'{what}: {z.tolist()}'[:300]
                row = np.floor(ang*n[1] + (0 if jit else 1e-9))
                col = np.floor((turn*n[0] + .5 + (n[0] % 2)*.5) % n[0])
                if jit and len(set(zip(row, col))) != len(z):
                    return f'{what}: jitter leaves the cells'
                continue
            if len(z) != n[0]:
                return f'{what}: {len(z)} points'
            nt = len(c['cos']) - 1
            row = np.minimum((ang*nt).astype(int), nt - 1)
            if not jit and np.abs(ang*nt - row - .5).max() > 1e-6:
                return f'{what}: polar angles {np.unique(ang*180)}'
            for j in range(nt):
                m = int((row == j).sum())
                lo = sum(a == b == j + 1 for a, b in e['pts'])
                hi = sum(a <= j + 1 <= b for a, b in e['pts'])
                if not lo <= m <= hi:
                    return f'{what}: {m} points in ring {j}, not {lo} to {hi}'
                t = np.sort(turn[row == j])
                if m == 0:
                    continue
                d = np.diff(np.append(t, t[0] + 1))
                if not jit and np.abs(d - 1/m).max() > 1e-9:
                    return f'{what}: ring {j} is not even'
                if jit and len(set(np.floor((t + .5/m + .5) % 1*m - 1e-12))) < m:
                    return f'{what}: jitter leaves the cells in ring {j}'
    return None


def random_points(n):
    from euphonic import sampling as S
    for cart in True, False:
        z = as_z_turn(S.random_sphere(n, cartesian=cart), cart)
        if len(z) != n or len(np.unique(z, axis=0)) != n:
            return f'random {n}: {len(z)} points'
    return None


def recurrence(n, d):
    """multiples of a vector of powers of the root of x^(d+1) = x + 1"""
    from euphonic import sampling as S
    x = max(r.real for r in np.roots([1] + [0]*(d - 1) + [-1, -1])
            if abs(r.imag) < 1e-12)
    p = np.array(list(S.recurrence_sequence(n, d))).reshape(-1, d)
    w = np.arange(n)[:, None]*x**-np.arange(1., d + 1)
    e = p - w
    if p.shape != (n, d) or (n and (p.min() < 0 or p.max() > 1)):
        return f'recurrence {n} {d}: {p.shape}'
    if n and np.abs(e - np.rint(e)).max() > 1e-10*n:
        return f'recurrence {n} {d}: differs by {np.abs(e - np.rint(e)).max()}'
    return None


def schemes(n):
    up = int(np.ceil(np.sqrt(n/2) - 1e-9))
    return [('golden', n), ('sphere-projected-grid', 2*up*up),
            ('spherical-polar-grid', 2*up*up), ('spherical-polar-improved', n),
            ('random-sphere', n)]


def expected_points(scheme, n):
    """points of a scheme without jitter, from the exact constructions"""
    up = int(np.ceil(np.sqrt(n/2) - 1e-9))
    if scheme == 'golden':
        i = np.arange(n)
        sq = np.stack([(2*i + 1)/(2*n), (i*float((R5 - 1)/2)) % 1], -1)
        return sphere(sq)
    a = np.stack(np.meshgrid(np.arange(2*up), np.arange(up), indexing='ij'),
                 -1).reshape(-1, 2)
    if scheme == 'sphere-projected-grid':
        # columns along z
        return sphere(np.stack([(a[:, 1] + .5)/up, (a[:, 0] + .5)/2/up], -1))
    if scheme == 'spherical-polar-grid':
        return np.stack([np.cos((a[:, 1] + .5)/up*np.pi), (a[:, 0]/2/up + .5) % 1], -1)
    return None


def powder(ck, k):
    """sphere averages are means over the points"""
    import euphonic
    from euphonic import Quantity, ForceConstants
    from euphonic import powder as P
    import c21
    rng = L.rng_for(ck.seed, 'c26p', k)
    base = c21.make(8 + 12*int(rng.integers(12)), k)[2]
    seen = []

    class Recording(ForceConstants):
        """notes the q-points it is asked for"""
        def calculate_qpoint_phonon_modes(self, qpts, *a, **kw):
            seen.append(np.array(qpts))
            return super().calculate_qpoint_phonon_modes(qpts, *a, **kw)

        def calculate_qpoint_frequencies(self, qpts, *a, **kw):
            seen.append(np.array(qpts))
            return super().calculate_qpoint_frequencies(qpts, *a, **kw)
    fc = Recording(base.crystal, base.force_constants, base.sc_matrix,
                   base.cell_origins, base.born, base.dielectric)
    n = int(rng.choice([6, 7, 8, 9, 11, 18, 23]))
    scheme, count = schemes(n)[k % 5]
    jit = bool(rng.integers(2)) and scheme != 'random-sphere'
    mod = Quantity(float(rng.choice([.3, 1.2, 4., 11.])), ['1/angstrom', '1/bohr', '1/nm'][k % 3])
    unit = ['meV', '1/cm', 'THz'][k//3 % 3]
    bins = Quantity(np.linspace(0, 1800., 24), 'meV').to(unit, 'spectroscopy') \
        if rng.integers(3) else None
    kw = {'use_c': False}
    if rng.integers(2):
        kw['asr'] = ['reciprocal', 'realspace'][int(rng.integers(2))]
    kind = ['dos', 'pdos', 'sf', 'sfdw', 'sfnone', 'wpdos'][int(rng.integers(6))]
    name = scheme if rng.integers(2) else scheme.title()
    args = dict(sampling=name, npts=n, jitter=jit, energy_bins=bins, **kw)
    what = f'{kind} {name} {n} jitter={jit} |Q|={mod} bins={unit if bins is not None else None} {kw}'
    fresh = ForceConstants(base.crystal, base.force_constants, base.sc_matrix,
                           base.cell_origins, base.born, base.dielectric)
    T = Quantity(float(rng.choice([5., 100., 300.])), 'K')
    lengths = {'Na': Quantity(3.63, 'fm'), 'Cl': Quantity(-9.58, 'fm')}
    cross = {'Na': Quantity(3., 'barn'), 'Cl': Quantity(7., 'barn')}
    dwargs = {}
    dw = None
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == 'dos':
            got = P.sample_sphere_dos(fc, mod, **args)
        elif kind in ('pdos', 'wpdos'):
            if kind == 'wpdos':
                dwargs = [{'cross_sections': cross, 'weighting': 'coherent'},
                          {'weighting': 'incoherent'},
                          {'weighting': 'coherent-plus-incoherent'}][k % 3]
            got = P.sample_sphere_pdos(fc, mod, **args, **dwargs)
        else:
            if kind == 'sf':
                sp = Quantity(float(rng.choice([.3, .5])), '1/angstrom')
                dwargs = {'temperature': T, 'dw_spacing': sp}
                grid = fresh.crystal.get_mp_grid_spec(sp)
                dw = fresh.calculate_qpoint_phonon_modes(
                    euphonic.util.mp_grid(grid), **kw).calculate_debye_waller(T)
            elif kind == 'sfdw':
                dw = euphonic.DebyeWaller(base.crystal, Quantity(
                    rng.uniform(0, .02, (2, 1, 1))*np.eye(3), 'angstrom**2'), T)
                dwargs = {'dw': dw, 'temperature': T.to('degC') if k % 2 else T}
                wrong = Quantity(T.magnitude + 1, 'K')
                try:
                    P.sample_sphere_structure_factor(
                        fc, mod, dw=dw, temperature=wrong, **args)
                    return f'{what}: accepted {wrong} with exponents at {T}'
                except ValueError:
                    seen.clear()
            else:
                dwargs = {'temperature': None}
            if k % 2:
                dwargs['scattering_lengths'] = lengths
            got = P.sample_sphere_structure_factor(fc, mod, **args, **dwargs)
    q = seen[-1]
    cart = (q @ base.crystal.reciprocal_cell().to('1/bohr').magnitude
            )/mod.to('1/bohr').magnitude
    if len(q) != count:
        return f'{what}: {len(q)} points not {count}'
    if np.abs(np.linalg.norm(cart, axis=1) - 1).max() > 1e-10:
        return f'{what}: points are not on the sphere'
    w = expected_points(scheme, n)
    if w is not None and not jit:
        z = np.stack([cart[:, 2], (np.arctan2(cart[:, 1], cart[:, 0])/2/np.pi) % 1], -1)
        if not same_sets(z, w, 1e-7, np.array([1e9, 1.])):
            return f'{what}: not the points of the scheme'
    # one point at a time
    total = 0
    b = bins
    if b is None:
        top = max(fresh.calculate_qpoint_frequencies(
            q[i:i + 1], **kw).frequencies.to('meV').magnitude.max() for i in range(len(q)))
        b = Quantity(np.linspace(0, top*1.05, 1001), 'meV')
    for i in range(len(q)):
        m = fresh.calculate_qpoint_phonon_modes(q[i:i + 1], **kw)
        if kind == 'dos':
            s = m.calculate_dos(b).y_data
        elif kind in ('pdos', 'wpdos'):
            s = m.calculate_pdos(b, **dwargs).y_data
        else:
            a = {'scattering_lengths': lengths} if k % 2 else {}
            s = m.calculate_structure_factor(dw=dw, **a).calculate_1d_average(b).y_data
        total = s + total if i else s
    want = total/len(q)
    gx = got.get_bin_edges()
    if len(gx) != len(b) or not np.allclose(gx.to('hartree', 'spectroscopy').magnitude,
                                            b.to('hartree', 'spectroscopy').magnitude, rtol=1e-9):
        return f'{what}: bins {gx[:3]}... not {b[:3]}'
    x, y = got.y_data.to(want.units).magnitude, want.magnitude
    if bins is None:
        # modes on edges of narrow bins may go to either side
        x, y = np.cumsum(x, axis=-1), np.cumsum(y, axis=-1)
        bad = np.abs(x - y) > 1e-8*np.abs(y).max()
        if bad.mean() > .01:
            return f'{what}: sums differ'
        return None
    if x.shape != y.shape or np.abs(x - y).max() > 1e-8*np.abs(y).max():
        return f'{what}: {x.ravel()[:5]} not {y.ravel()[:5]}'
    return None


def run(ck):
    cases = gen(ck)
    r = ck.tlc('Sampling', cases=cases, invariants=[
        'Inside', 'Distinct', 'Inversion', 'Shares', 'Rows', 'Emit'])
    res = {e['id']: e for e in r.emitted}
    rng = L.rng_for(ck.seed, 'c26r')
    np.random.seed(int(rng.integers(2**31)))
    for c in cases:
        ck.replay(f'{c["kind"]} {c["n"]}', lambda: one(c, res[c['id']], rng), case=c)
    ck.sample(cases[3])
    for n in [1, 2, 5] + rng.integers(3, 200, ck.pick(6, 30)).tolist():
        ck.replay(f'random {n}', lambda: random_points(int(n)))
        for d in range(1, 6):
            ck.replay(f'recurrence {n} {d}', lambda: recurrence(int(n), d))
    for n in range(6, ck.pick(400, 3000)):
        ck.replay(f'rings {n}', lambda: rings(n))
    for k in range(ck.pick(60, 400)):
        ck.replay(f'powder {k}', lambda: powder(ck, k), case=k)
    ck.assumptions += ['jitter is compared as membership of cells',
                       'the quantity at one point is judged by other checks']


def rings(n):
    """number of points, at every size"""
    from euphonic import sampling as S
    m = sum(1 for _ in S.spherical_polar_improved(n))
    return None if m == n else f'{m} points'
