"""C32: the tool that times dipole parameters, and the one that shows samplings."""
import contextlib
import io
import os
import re
import shutil
import tempfile
import time
import unittest.mock as mock
import warnings
import numpy as np
from vf import lattice as L
from vf.check import Mismatch
from c28 import make_files

TICK = 1e-3
CLOCKS = ('time', 'perf_counter', 'monotonic', 'process_time', 'thread_time')
FUN = {'golden-square': 'golden_square', 'regular-square': 'regular_square',
       'recurrence-square': 'recurrence_sequence', 'recurrence-cube': 'recurrence_sequence',
       'golden-sphere': 'golden_sphere', 'sphere-from-square-grid': 'sphere_from_square_grid',
       'spherical-polar-grid': 'spherical_polar_grid',
       'spherical-polar-improved': 'spherical_polar_improved'}


def run(ck):
    import matplotlib
    matplotlib.use('Agg')
    tmp = tempfile.mkdtemp(prefix='c32-')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _run(ck, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(ck, tmp):
    from euphonic import ForceConstants
    rng = L.rng_for(ck.seed, 'c32')
    with contextlib.redirect_stdout(io.StringIO()):
        files = make_files(ck.seed, tmp)
    f = ForceConstants.from_json_file(files['fc'])
    f = ForceConstants(f.crystal, f.force_constants, f.sc_matrix, f.cell_origins)
    files['uncharged'] = os.path.join(tmp, 'plain.json')
    with contextlib.redirect_stdout(io.StringIO()):
        f.to_json_file(files['uncharged'])
    for nk, n, num in ((8, 12, ck.pick(80, 1200)), (3, 3, ck.pick(80, 600))):
        t = ck.tlc('Optimise', constants={'MaxK': nk, 'MaxN': n},
                   invariants=['Covers', 'Measured', 'Clock', 'Emit'],
                   simulate=2*num, depth=60, seed=ck.seed)
        for k, i in enumerate(rng.permutation(len(t.emitted))[:num]):
            h = t.emitted[i]
            ck.replay(f'optimise {h["job"]}', lambda: optimise(h, k, files), case=h)
            if k % 50 == 0:
                ck.sample([h['job'], h['tried'][:2], h['best']])
    t = ck.tlc('Show', constants={'MaxRows': 11}, invariants=['Enough', 'Smallest', 'Exact', 'Emit'],
               simulate=ck.pick(900, 6000), depth=20, seed=ck.seed)
    for k, i in enumerate(rng.permutation(len(t.emitted))[:ck.pick(350, 2500)]):
        h = t.emitted[i]
        ck.replay(f'show {h["req"]}', lambda: show(h, k, tmp), case=h)


class Clock(io.StringIO):
    """Time passes when something is calculated or printed"""
    def __init__(self):
        super().__init__()
        self.t = 0

    def write(self, s):
        if self.t % 7:
            self.t += 7 - self.t % 7
        return super().write(s)


def optimise(h, k, files):
    from euphonic import ForceConstants
    from euphonic.cli import optimise_dipole_parameter as tool
    j = h['job']
    c = Clock()
    calls = []
    real = ForceConstants.calculate_qpoint_phonon_modes

    def calc(self, qpts, *args, **kw):
        r = real(self, qpts, *args, **{**kw, 'n_threads': 1})
        v = kw.get('dipole_parameter', 1.)
        i = [i for i, x in enumerate(h['tried']) if abs(x['value']/1000 - v) < 1e-9]
        if not i:
            raise Mismatch(f'dipole_parameter {v} is tried')
        # calculations of the same point are done once if this is not prevented
        n = len(qpts) if kw.get('reduce_qpts', True) is False else len(np.unique(qpts, axis=0))
        c.t += j['cost'][i[0]]['setup'] + n*j['cost'][i[0]]['each']
        calls.append((i[0], len(qpts), kw))
        return r

    want = {'asr': None, 'use_c': None, 'n_threads': None}
    opts = []
    for o in j['opts']:
        key, val, arg = {'asr-real': ('asr', 'realspace', ['--asr', 'realspace']),
                         'asr-reciprocal': ('asr', 'reciprocal', ['--asr', 'reciprocal']),
                         'c': ('use_c', True, ['--use-c']), 'no-c': ('use_c', False, ['--disable-c']),
                         'threads': ('n_threads', 3, ['--n-threads', '3'])}[o]
        want[key] = val
        opts += arg
    fn = files[j['data']]
    lims = [j['min']/1000, j['max']/1000, j['step']/1000]
    with contextlib.ExitStack() as st:
        # clocks that have been imported by name
        for x, v in list(vars(tool).items()):
            for y in CLOCKS:
                for ns, scale in (('', TICK), ('_ns', 10**6)):
                    if v is getattr(time, y + ns):
                        st.enter_context(mock.patch.object(tool, x, lambda a=scale: c.t*a))
        for x in CLOCKS:
            st.enter_context(mock.patch.object(time, x, lambda: c.t*TICK))
            st.enter_context(mock.patch.object(time, x + '_ns', lambda: c.t*10**6))
        st.enter_context(mock.patch.object(ForceConstants, 'calculate_qpoint_phonon_modes', calc))
        st.enter_context(contextlib.redirect_stdout(c))
        seen = st.enter_context(warnings.catch_warnings(record=True))
        warnings.simplefilter('always')
        res, err = None, None
        try:
            if j['loud']:
                tool.main([fn, '-n', str(j['n']), ('--min', '--dipole-parameter-min')[k % 2],
                           str(lims[0]), ('--max', '--dipole-parameter-max')[k//2 % 2], str(lims[1]),
                           ('--step', '--dipole-parameter-step')[k//4 % 2], str(lims[2])] + opts)
            else:
                res = tool.calculate_optimum_dipole_parameter(
                    fn, *lims, n=j['n'], **{a: b for a, b in want.items() if b is not None})
        except (TypeError, ValueError) as e:
            err = e
    if h['err']:
        if not isinstance(err, TypeError) or calls:
            return f'no error: {err!r}, {len(calls)} calculations'
        return None
    if err:
        raise err
    if any('Born' in str(w.message) for w in seen) != (j['data'] == 'uncharged'):
        return f'warnings {[str(w.message) for w in seen]}'
    for i, n, kw in calls:
        for a, b in want.items():
            if kw.get(a) != b:
                return f'{a} is {kw.get(a)}, not {b}'
    tried = h['tried']
    if [i for i, n, kw in calls] != [i for i in range(len(tried)) for _ in range(2)]:
        return f'parameters in calculations {[i for i, n, kw in calls]}'
    best = [tried[i - 1] for i in h['best']]
    out = c.getvalue()
    if j['loud']:
        num = r'\s*(-?[\d.]+)'
        rows = re.findall(rf'Results for dipole_parameter{num}\s+Initialisation Time\s*:{num} s\s+'
                          rf'Time/qpt\s*:{num} ms', out)
        if len(rows) != len(tried):
            return f'{len(rows)} results for {len(tried)} parameters'
        for r, w in zip(rows, tried):
            near(r, w, j)
        last = re.findall(rf'optimum dipole_parameter is{num}\s+Initialisation Time\s*:{num} s\s+'
                          rf'Time/qpt\s*:{num} ms', out)
        if len(last) != 1:
            return 'no suggestion'
        return suggested(last[0], best, j, near)
    if out:
        return f'printed {out[:60]}'
    opt, ti, tq, vals, tis, tqs = res
    if not len(vals) == len(tis) == len(tqs) == len(tried):
        return f'{len(vals)} parameters'
    for r, w in zip(zip(vals, tis, tqs), tried):
        exact(r, w, j)
    return suggested((opt, ti, tq), best, j, exact)


def suggested(r, best, j, cmp):
    for b in best:
        try:
            cmp(r, b, j)
            return None
        except Mismatch:
            pass
    return f'suggested {r}, not one of {best}'


def near(r, w, j, tol=(.0051, .0051, .0051)):
    for x, v, t, name in zip(r, (w['value']/1000, w['init']*TICK, w['many']*TICK/j['n']*1000), tol,
                             ('parameter', 'time of initialisation', 'time for a point')):
        if abs(float(x) - v) > t:
            raise Mismatch(f'{name} {x}, not {v}')


def exact(r, w, j):
    near((r[0], r[1], r[2]*1000), w, j, (1e-10, 1e-10, 1e-9))


def show(h, k, tmp):
    import matplotlib.pyplot as plt
    from euphonic import sampling
    from euphonic.cli import show_sampling
    r = h['req']
    plt.close('all')
    fn = os.path.join(tmp, f'figure{k % 3}.png')
    if os.path.exists(fn):
        os.remove(fn)
    args = [str(r['npts']), r['name']] + ['--jitter']*r['jitter'] + ['--save-plot', fn]*r['save']
    out = io.StringIO()
    state = np.random.get_state()
    err = None
    try:
        np.random.seed(k)
        with contextlib.redirect_stdout(out), mock.patch.object(plt, 'show'), \
                mock.patch.object(plt.Figure, 'savefig', lambda self, f, **kw: open(f, 'w').close()):
            try:
                show_sampling.main(args)
            except ValueError as e:
                err = e
    finally:
        np.random.set_state(state)
    if h['err'] or err:
        return None if h['err'] and err else f'error {err!r}, expected {h["err"]}'
    if os.path.exists(fn) != r['save']:
        return 'figure saved' if not r['save'] else 'figure not saved'
    figs = plt.get_fignums()
    if len(figs) != 1 or len(plt.figure(figs[0]).axes) != 1:
        return f'{len(figs)} figures'
    ax = plt.gca()
    pts = []
    for a in ax.collections:
        o = a._offsets3d if hasattr(a, '_offsets3d') else np.asarray(a.get_offsets()).T
        pts += list(zip(*(np.ma.getdata(x) for x in o)))
    for a in ax.lines:
        pts += list(zip(*(a.get_data_3d() if hasattr(a, 'get_data_3d') else a.get_data())))
    pts = np.array(pts, dtype=float)
    if pts.shape != (h['size'], 2 if h['flat'] else 3):
        return f'{pts.shape} points, not {h["size"]}'
    told = re.findall(r'\d+', out.getvalue().replace(fn, ''))
    if (str(h['size']) in told) != h['told']:
        return f'prints {out.getvalue()!r}'
    if r['name'] == 'random-sphere':
        d = np.abs((pts**2).sum(axis=1) - 1).max()
        return f'not on the sphere by {d}' if d > 1e-9 else None
    f = getattr(sampling, FUN[r['name']])
    if 'recurrence' in r['name']:
        ref = f(h['size'], order=2 if h['flat'] else 3)
    elif r['name'] == 'regular-square':
        ref = f(h['rows'], h['rows'])
    elif r['name'] == 'sphere-from-square-grid':
        ref = f(h['cols'], h['rows'])
    elif r['name'] == 'spherical-polar-grid':
        ref = f(h['cols'], h['rows'])
    else:
        ref = f(h['size'])
    ref = np.array(list(ref))
    d = pts - ref
    if r['name'] == 'golden-square':
        # what leaves the square comes back from the other side
        d -= np.round(d)
    d = np.sqrt((d**2).sum(axis=1))
    if not h['moved']:
        return f'points differ by {d.max()}' if d.max() > 1e-12 else None
    # by up to half of a cell
    if d.min() < 1e-12:
        return 'points are not moved'
    cell = {'golden-square': 1/np.sqrt(2*h['size']), 'regular-square': 1/np.sqrt(2)/h['rows']}.get(
        r['name'], 2.)
    if d.max() > cell + 1e-12:
        return f'point moved by {d.max()}'
    return None
