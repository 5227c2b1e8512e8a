"""C28: the command line tools do what their options say."""
import contextlib
import importlib
import io
import os
import shutil
import sys
import tempfile
import warnings
import numpy as np
from vf import lattice as L
from vf.check import Mismatch

NODES = {'GAMMA': [0, 0, 0], 'A': [.5, 0, 0], 'B': [.5, .5, 0],
         'C': [1/3, 1/3, .2], 'D': [.25, .1, .4]}
TOOLS = {'dos': 'dos', 'dispersion': 'dispersion', 'map': 'intensity_map',
         'powder': 'powder_map'}
FLAGS = {'unitL': 'length-unit', 'unitE': 'energy-unit', 'emin': 'e-min',
         'emax': 'e-max', 'spacing': 'grid-spacing', 'method': 'adaptive-method',
         'fit': 'adaptive-fit', 'error': 'adaptive-error',
         'ascale': 'adaptive-scale', 'inst': 'instrument-broadening',
         'eb': 'energy-broadening', 'mapw': 'weighting', 'powderw': 'weighting',
         'pdos1': 'pdos', 'dp': 'dipole-parameter', 'threads': 'n-threads',
         'qspacing': 'q-spacing', 'qb': 'q-broadening', 'qb2': 'q-broadening',
         'qmin': 'q-min', 'qmax': 'q-max', 'density': 'npts-density',
         'nmin': 'npts-min', 'nmax': 'npts-max', 'ei': 'e-incident',
         'ef': 'e-final', 'angles': 'angle-range', 'vmin': 'v-min',
         'vmax': 'v-max', 'width': 'line-width', 'font': 'font-size',
         'cmap': 'c-map', 'figsize': 'fig-size', 'figunit': 'fig-size-unit',
         'nobase': 'no-base-style', 'xlabel': 'x-label', 'ylabel': 'y-label'}
SHEETS = {'s1': 'lines.linewidth: 3\nimage.cmap: plasma\nfont.size: 9\n',
          's2': 'lines.linewidth: 0.5\nfigure.figsize: 5, 4\nfont.size: 16\n'}
INCHES = {'inch': 1., 'cm': 1/2.54, 'mm': 1/25.4}
WHOLE = {'grid', 'ebins', 'threads', 'npts', 'density', 'nmin', 'nmax'}
LONG = {'figsize', 'style', 'grid', 'inst', 'eb', 'qb', 'qb2', 'angles', 'pdos', 'pdos1'}


def run(ck):
    import matplotlib
    matplotlib.use('Agg')
    tmp = tempfile.mkdtemp(prefix='c28-')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _run(ck, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(ck, tmp):
    rng = L.rng_for(ck.seed, 'c28')
    inv = ['PathOk', 'Used', 'Order', 'StyleOk', 'Emit']
    hs = []
    for nopts, num in ((3, ck.pick(150, 1500)), (6, ck.pick(250, 2500)),
                       (10, ck.pick(150, 1500))):
        t = ck.tlc('Cli', constants={'NOpts': nopts, 'NSegs': 1 + nopts,
                                     'Nodes': set(NODES)},
                   invariants=inv, simulate=num, depth=30 + 2*nopts, seed=ck.seed)
        by = {}
        for h in t.emitted:
            by.setdefault((h['tool'], h['err'] != ''), []).append(h)
        for (tool, bad), es in sorted(by.items()):
            c = ck.pick(5, 40) if bad else ck.pick(20, 180)
            hs += [es[i] for i in rng.permutation(len(es))[:c]]
    with contextlib.redirect_stdout(io.StringIO()):
        files = make_files(ck.seed, tmp)
    for k, h in enumerate(hs):
        args = arguments(h, k, tmp)
        ck.replay(f'{h["tool"]} {h["data"]} {" ".join(args)}',
                  lambda: one(h, args, files, tmp, k), case=h)
        if k % 30 == 0:
            ck.sample([h['tool'], h['data'], args, [p['op'] for p in h['plan']]])
    loading(ck, files, tmp)


def make_files(seed, tmp):
    """A crystal with two species, springs between all of its atoms, charges"""
    from euphonic import Crystal, ForceConstants, Quantity, QpointFrequencies
    rng = L.rng_for(seed, 'c28-data')
    cell = Quantity(np.array([[0, 2.1, 2.0], [2.2, 0, 2.0], [2.2, 2.1, 0.1]]), 'angstrom')
    crys = Crystal(cell, np.array([[0, 0, 0], [.48, .5, .53]]), np.array(['Na', 'Cl']),
                   Quantity(np.array([23., 35.5]), 'amu'))
    sc = np.diag([2, 2, 1])
    orig = np.array([[i, j, 0] for i in range(2) for j in range(2)])
    fc = np.zeros((4, 2, 2, 3, 3))
    for c in range(4):
        for i in range(2):
            for j in range(2):
                if c == 0 and i >= j:
                    continue
                a = rng.normal(size=(3, 3))
                s = a @ a.T*(1. if i != j else .3)
                # the same bond from its other end
                for x, y in ((i, j), (j, i)):
                    fc[c, x, y] -= s/2
                    fc[0, x, x] += s/2
    # cells are their own opposites modulo the supercell
    for i in range(2):
        for j in range(2):
            if i < j:
                fc[0, j, i] = fc[0, i, j].T
    on = -fc.sum(axis=(0, 2)) + np.array([fc[0, i, i] for i in range(2)])
    for i in range(2):
        fc[0, i, i] = (on[i] + on[i].T)/2
    arr = np.zeros((4, 6, 6))
    for c in range(4):
        for i in range(2):
            for j in range(2):
                arr[c, 3*i:3*i + 3, 3*j:3*j + 3] = fc[c, i, j]
    z = np.array([np.diag([1., 1.1, .9]), -np.diag([1., 1.1, .9])])
    f = ForceConstants(crys, Quantity(arr*.012, 'hartree/bohr**2'), sc, orig,
                       born=Quantity(z, 'e'), dielectric=Quantity(
                           np.diag([2.5, 2.6, 2.4]), 'e**2/(bohr*hartree)'))
    out = {'fc': os.path.join(tmp, 'fc.json')}
    for name, text in SHEETS.items():
        with open(os.path.join(tmp, name + '.mplstyle'), 'w') as g:
            g.write(text)
    f.to_json_file(out['fc'])
    q = np.array([[0, 0, .1*i] for i in range(4)] + [[.1*i, 0, .3] for i in range(1, 5)]
                 + [[.05*i, .5, .5] for i in range(3)] + [[.5, .5 - .1*i, 0] for i in range(5)])
    m = f.calculate_qpoint_phonon_modes(q, reduce_qpts=False)
    m.weights = np.arange(1, len(q) + 1)/np.arange(1, len(q) + 1).sum()
    m.frequencies_unit = 'hartree'
    # some of them imaginary
    m.frequencies = m.frequencies*np.where(np.arange(6) < 2, -.1, 1.)
    out['modes'] = os.path.join(tmp, 'modes.json')
    m.to_json_file(out['modes'])
    out['freqs'] = os.path.join(tmp, 'freqs.json')
    QpointFrequencies(m.crystal, m.qpts, m.frequencies, m.weights
                      ).to_json_file(out['freqs'])
    return out


def num(o, v, k):
    if isinstance(v, str):
        return v
    if o in WHOLE:
        return str(v)
    # (argparse takes negative numbers with an exponent for options)
    return (repr(v/100), f'{v}e-2' if v >= 0 else repr(v/100), '%.4f' % (v/100))[k % 3]


def arguments(h, k, tmp):
    a = []
    for o, v in sorted(h['opt'].items(), key=lambda p: ((len(p[0])*7 + k) % 5, p[0])):
        if not v:
            continue
        flag = '--' + FLAGS.get(o, o)
        if o in ('adaptive', 'reorder', 'nobase', 'jitter'):
            a.append([flag])
        elif o == 'engine':
            a.append(['--' + v[0]])
        elif o == 'asr':
            a.append([flag] if v[0] == 'bare' else [f'{flag}={v[0]}'])
        elif o in ('pdos', 'pdos1'):
            a.append([flag] + v[1:])
        elif o == 'style':
            a.append([flag] + [os.path.join(tmp, x + '.mplstyle') for x in v])
        elif o in LONG:
            a.append([flag] + [num(o, x, k) for x in v])
        else:
            a.append([f'{flag}={num(o, v[0], k)}'])
    return [x for y in a for x in y]


def coords(p):
    a, b = np.array(NODES[p['a']], dtype=float), np.array(NODES[p['b']], dtype=float)
    return a + (b - a)*p['j']/p['k']


def bandpath(h):
    return {'explicit_kpoints_rel': np.array([coords(p) for p in h['pts']]),
            'explicit_kpoints_labels': [p['a'] if p['a'] == p['b'] else ''
                                        for p in h['pts']],
            'explicit_segments': [(s[0] - 1, s[1]) for s in h['segs']],
            'explicit_kpoints_abs': np.array([coords(p) for p in h['pts']]),
            'explicit_kpoints_linearcoord': np.arange(len(h['pts'])),
            'point_coords': dict(NODES),
            'path': [(h['pts'][s[0] - 1]['a'], h['pts'][s[1] - 1]['a'])
                     for s in h['segs']]}


@contextlib.contextmanager
def seekpath_gives(h, seen):
    import seekpath
    orig = seekpath.get_explicit_k_path
    if getattr(orig, 'c28', False):
        raise RuntimeError('nested')

    def stub(structure, with_time_reversal=True, recipe='hpkot',
             reference_distance=.025, *a, **kw):
        seen.append((structure, reference_distance))
        return bandpath(h)
    stub.c28 = True
    done = []
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').split('.')[0] in ('euphonic', 'seekpath'):
            for name, v in list(vars(m).items()):
                if v is orig:
                    done.append((m, name))
                    setattr(m, name, stub)
    try:
        yield
    finally:
        for m, name in done:
            setattr(m, name, orig)


def one(h, args, files, tmp, k):
    import matplotlib.pyplot as plt
    tool = importlib.import_module('euphonic.cli.' + TOOLS[h['tool']])
    out, pic = os.path.join(tmp, 'out.json'), os.path.join(tmp, 'out.png')
    for f in (out, pic):
        if os.path.exists(f):
            os.remove(f)
    argv = [files[h['data']]] + args + ['--save-json=' + out]
    if k % 7 == 0:
        argv += ['--save-to', pic]
    if h['tool'] == 'powder' and k % 3:
        argv += ['--no-widgets']
    want = {'': None, 'usage': SystemExit, 'type': TypeError,
            'value': ValueError}[h['err']]
    seen = []
    plt.close('all')
    try:
        got = None
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()), seekpath_gives(h, seen):
            try:
                tool.main(argv)
            except (SystemExit, TypeError, ValueError) as e:
                got = e
        if got is not None or want:
            if got is None or not want or not isinstance(got, want):
                raise Mismatch(f'{got!r} instead of {h["err"] or "a result"}') from got
            if os.path.exists(out):
                raise Mismatch('output in spite of the error')
            return None
        if not os.path.exists(out):
            return 'no output'
        if '--save-to' in argv and not os.path.exists(pic):
            return 'no picture'
        fig = plt.gcf()
        with contextlib.redirect_stdout(io.StringIO()):
            return compare(h, files, out, fig, seen)
    finally:
        plt.close('all')


def far(a, b, what, tol=1e-9):
    if str(a.units) != str(b.units):
        raise Mismatch(f'{what}: in {a.units}, not {b.units}')
    x, y = np.asarray(a.magnitude), np.asarray(b.magnitude)
    if x.shape != y.shape:
        raise Mismatch(f'{what}: shape {x.shape}, not {y.shape}')
    if not np.array_equal(np.isnan(x), np.isnan(y)):
        raise Mismatch(f'{what}: missing values differ')
    d = np.nanmax(np.abs(x - y), initial=0.)
    if d > tol*max(np.nanmax(np.abs(y), initial=0.), 1e-30):
        raise Mismatch(f'{what}: off by {d:.3g} of {np.nanmax(np.abs(y)):.3g}')


def poly(c, unit, scale=1.):
    from euphonic import ureg
    p = np.polynomial.Polynomial(np.array(c)/100)
    return lambda x: p(x.to(unit).magnitude)*scale*ureg(unit)


class Runner:
    """Carries out a plan with the library"""

    def __init__(self, h, files, saved, seen):
        self.h, self.files, self.saved, self.seen = h, files, saved, seen
        self.spec = self.modes = self.widths = self.pieces = self.jitter = None

    def call(self, c):
        # the engine makes no difference, except to the order of crossing modes
        e = self.h['opt']['engine'] == ['disable-c'] and self.h['opt']['reorder']
        return {'asr': (c['asr'] or [None])[0], 'dipole_parameter': c['dp']/100,
                'use_c': False if e else None}

    def grid(self, g):
        from euphonic import ureg
        from euphonic.util import mp_grid
        if g['grid']:
            return mp_grid(tuple(g['grid']))
        return mp_grid(self.fc.crystal.get_mp_grid_spec(
            g['spacing'][0]/100*ureg('1/' + g['unit'])))

    def load(self, a):
        from euphonic import ForceConstants, QpointFrequencies, QpointPhononModes
        fn = self.files[self.h['data']]
        if self.h['data'] == 'fc':
            self.fc = ForceConstants.from_json_file(fn)
        elif self.h['data'] == 'modes' and a['vectors']:
            self.modes = QpointPhononModes.from_json_file(fn)
        else:
            self.modes = QpointFrequencies.from_json_file(fn)

    def grid_modes(self, a):
        q = self.grid(a['grid'])
        r = self.fc.calculate_qpoint_phonon_modes(
            q, return_mode_gradients=a['gradients'], **self.call(a['call']))
        self.modes, self.grads = r if a['gradients'] else (r, None)

    def path_modes(self, a):
        from euphonic import ureg
        q = np.array([coords(p) for p in a['qpts']])
        # the path that was asked for
        if not self.seen:
            raise Mismatch('no path was looked up')
        d = (a['spacing'] or [2.5])[0]/100*ureg('1/' + a['unit'])
        if abs(self.seen[0][1] - d.to('1/angstrom').magnitude) > 1e-9:
            raise Mismatch(f'path with a spacing of {self.seen[0][1]}, not {d}')
        c = self.fc.crystal.to_spglib_cell()
        if any(not np.allclose(x, y) for x, y in zip(self.seen[0][0], c)):
            raise Mismatch('path of another cell')
        f = (self.fc.calculate_qpoint_phonon_modes if a['vectors'] else
             self.fc.calculate_qpoint_frequencies)
        self.modes = f(q, reduce_qpts=False, **self.call(a['call']))

    def reorder(self, a):
        self.modes.reorder_frequencies()

    def bands(self, a):
        self.modes.frequencies_unit = a['unit']
        self.spec = self.modes.get_dispersion()
        self.ticks(a)

    def ticks(self, a):
        if a['ticks']:
            self.spec.x_tick_labels = [
                (t['at'], '$\\Gamma$' if t['name'] == 'GAMMA' else t['name'])
                for t in a['ticks'][0]]

    def bins(self, a):
        from euphonic import ureg, Quantity
        b = self.saved.x_data if self.h['tool'] == 'dos' else self.saved.y_data
        if b.units != ureg(a['unit']).units:
            raise Mismatch(f'energies in {b.units}')
        e = b.magnitude
        if len(e) != a['n'] + 1:
            raise Mismatch(f'{len(e)} bin edges for {a["n"]} bins')
        if np.abs(np.diff(e) - (e[-1] - e[0])/a['n']).max() > 1e-9*abs(e).max():
            raise Mismatch('uneven bins')
        lo, hi = e[0], e[-1]
        if a['lo'] and abs(lo - a['lo'][0]/100) > 1e-9:
            raise Mismatch(f'energies from {lo}')
        if a['hi'] and abs(hi - a['hi'][0]/100) > 1e-9:
            raise Mismatch(f'energies up to {hi}')
        if self.modes is not None:
            self.modes.frequencies_unit = a['unit']
            f = self.modes.frequencies.magnitude
            if not a['lo'] and not (lo <= min(f.min(), 0.) and
                                    lo >= min(f.min(), 0.) - .02*f.max()):
                raise Mismatch(f'energies from {lo}, modes from {f.min()}')
            if not a['hi'] and not f.max() < hi < 2*f.max():
                raise Mismatch(f'energies up to {hi}, modes up to {f.max()}')
        else:
            if not a['lo'] and not -1e-3*hi < lo <= 0.:
                raise Mismatch(f'energies from {lo}')
        self.unit = a['unit']
        self.ebins = Quantity(e, a['unit'])

    def widths_(self, a):
        from euphonic.util import mode_gradients_to_widths
        w = mode_gradients_to_widths(self.grads, self.modes.crystal.cell_vectors)
        w = w*(a['scale']/100)
        if a['fwhm']:
            # widths of modes are standard deviations
            i = poly(a['fwhm'], self.unit, 1/np.sqrt(8*np.log(2)))(self.modes.frequencies)
            w = np.sqrt(w.to(self.unit)**2 + i**2)
        self.widths = w

    def dos(self, a):
        kw = {'mode_widths': self.widths, 'adaptive_method': a['method'],
              'adaptive_error': a['error']/100, 'adaptive_error_fit': a['fit']}
        if not a['parts']:
            self.spec = self.modes.calculate_dos(self.ebins, **kw)
            return
        w = {'dos': None, 'coherent-dos': 'coherent', 'incoherent-dos': 'incoherent',
             'coherent-plus-incoherent-dos': 'coherent-plus-incoherent'}[a['weighting']]
        p = self.modes.calculate_pdos(self.ebins, weighting=w, **kw)
        self.spec = self.group(p, a['groups'])

    def group(self, p, groups):
        from euphonic.spectra import Spectrum1DCollection
        total = p.sum()
        if not groups:
            return total
        total.metadata['label'] = 'Total'
        lines = []
        for s in list(dict.fromkeys(self.crystal().atom_type.tolist())):
            x = p.select(species=s).sum()
            x.metadata['label'] = s
            lines.append(x)
        if len(groups) > 1:
            lines = [[x for x in lines if x.metadata['label'] == s][0] for s in groups[1:]]
        else:
            lines = [total] + lines
        return Spectrum1DCollection.from_spectra(lines)

    def crystal(self):
        return (self.modes or self.fc).crystal

    def dw(self, a):
        from euphonic import ureg
        if not a['temperature']:
            return None
        m = self.fc.calculate_qpoint_phonon_modes(self.grid(a['grid']),
                                                  **self.call(a['call']))
        return m.calculate_debye_waller(a['temperature'][0]/100*ureg('K'))

    def map(self, a):
        from euphonic.util import get_qpoint_labels
        if a['weighting'] == 'coherent':
            self.spec = self.modes.calculate_structure_factor(
                dw=self.dw(a)).calculate_sqw_map(self.ebins)
        else:
            self.spec = self.modes.calculate_dos_map(self.ebins)
        if a['ticks']:
            self.ticks(a)
        else:
            t = get_qpoint_labels(self.modes.qpts,
                                  cell=self.modes.crystal.to_spglib_cell())
            if t:
                self.spec.x_tick_labels = t

    def shells(self, a):
        from euphonic import ureg, Quantity
        x = self.saved.x_data
        if x.units != ureg('1/' + a['unit']).units:
            raise Mismatch(f'|q| in {x.units}')
        want = np.linspace(a['lo'], a['hi'], a['n'] + 1)/100
        if len(x) != len(want) or np.abs(x.magnitude - want).max() > 1e-9:
            raise Mismatch(f'|q| bins {x}, not {want}')
        self.edges = Quantity(x.magnitude, x.units)
        self.npts = a['npts']

    def spheres(self, a):
        self.jitter = [a['weighting']] if a['jitter'] else None
        from euphonic import Quantity, ureg
        from euphonic import powder
        from euphonic.spectra import Spectrum2D
        e = self.edges.magnitude
        dw = self.dw(a)
        kw = self.call(a['call'])
        rows = []
        for i, npts in enumerate(self.npts):
            q = Quantity((e[i] + e[i + 1])/2, self.edges.units)
            c = dict(npts=npts, sampling=a['sampling'], energy_bins=self.ebins, **kw)
            if a['weighting'] == 'coherent':
                t = a['temperature'][0]/100*ureg('K') if a['temperature'] else None
                s = powder.sample_sphere_structure_factor(self.fc, q, dw=dw,
                                                          temperature=t, **c)
            elif a['weighting'] == 'dos' and not a['groups']:
                s = powder.sample_sphere_dos(self.fc, q, **c)
            else:
                w = None if a['weighting'] == 'dos' else a['weighting'][:-4]
                p = powder.sample_sphere_pdos(self.fc, q, weighting=w, **c)
                s = (p.select(species=a['groups'][1]) if a['groups'] else p).sum()
            rows.append(s.y_data.magnitude)
        self.spec = Spectrum2D(self.edges, self.ebins, Quantity(np.array(rows),
                                                                s.y_data.units))

    def broaden(self, a):
        tool = self.h['tool']

        def width(c, unit):
            if not c:
                return None
            if len(c) > 1:
                return poly(c, unit)
            from euphonic import Quantity
            return Quantity(c[0]/100, unit)
        if tool == 'dos':
            kw = {}
            if len(a['x']) > 1:
                kw = dict(method='convolve', width_fit='cheby-log',
                          width_interpolation_error=(self.h['opt']['error'] or [1])[0]/100)
            self.spec = self.spec.broaden(width(a['x'], self.unit), shape=a['shape'], **kw)
        else:
            lu = '1/' + (self.h['opt']['unitL'] or ['angstrom'])[0]
            self.spec = self.spec.broaden(
                x_width=width(a['x'], lu), y_width=width(a['y'], self.unit),
                shape=a['shape'], **({'method': 'convolve'} if tool == 'map' else {}))

    def mask(self, a):
        from euphonic import Quantity
        from euphonic.spectra import apply_kinematic_constraints
        e = {k: Quantity(a[v][0]/100, self.unit) for k, v in
             (('e_i', 'ei'), ('e_f', 'ef')) if a[v]}
        self.spec = apply_kinematic_constraints(
            self.spec, angle_range=[x/100 for x in a['angles']], **e)

    def scale(self, a):
        self.spec = self.spec*(a/100)

    def save(self, a):
        self.look = a

    def cut(self, a):
        self.pieces = self.spec.split(indices=sorted(a['at']))

    def split(self, a):
        self.pieces = self.spec.split(btol=a['btol']/100)

    def go(self):
        for p in self.h['plan']:
            name = p['op'].replace(' ', '_')
            getattr(self, 'widths_' if name == 'widths' else name)(p['arg'])


def compare(h, files, out, fig, seen):
    from euphonic import spectra as S
    import json
    with open(out) as f:
        d = json.load(f)
    cls = (S.Spectrum2D if 'z_data' in d else
           S.Spectrum1DCollection if np.ndim(d['y_data']) == 2 else S.Spectrum1D)
    saved = cls.from_json_file(out)
    r = Runner(h, files, saved, seen)
    r.go()
    want = r.spec
    if type(saved) is not type(want):
        return f'{type(saved).__name__} instead of {type(want).__name__}'
    if r.jitter:
        z, zz = (np.nan_to_num(x.z_data.magnitude) for x in (saved, want))
        if r.jitter == ['coherent'] and np.abs(zz).max() > 0 and np.allclose(z, zz, rtol=1e-6):
            return 'points are where they are without jitter'
        want.z_data = saved.z_data
    for name in ('x_data', 'y_data') + (('z_data',) if hasattr(want, 'z_data') else ()):
        # (frequencies near zero are roots of rounding errors)
        far(getattr(saved, name), getattr(want, name), name,
            1e-6 if h['tool'] in ('dos', 'dispersion') else 1e-8)
    lab = lambda s: [(int(i), x) for i, x in s.x_tick_labels or []]
    if lab(saved) != lab(want):
        return f'labels {lab(saved)}, not {lab(want)}'
    if isinstance(want, S.Spectrum1DCollection) and h['tool'] == 'dos':
        n = [x.metadata.get('label') for x in saved]
        if n != [x.metadata.get('label') for x in want]:
            return f'lines {n}'
    # the figure
    pieces = r.pieces or [want]
    axes = [a for a in fig.axes if a.lines or a.images]
    if len(axes) != len(pieces):
        return f'{len(axes)} parts of the figure for {len(pieces)} pieces'
    for a, p in zip(axes, pieces):
        if h['tool'] in ('map', 'powder'):
            lim = p.get_bin_edges('x').to(p.x_data_unit).magnitude
        else:
            lim = p.x_data.magnitude
        if np.abs(np.array(a.get_xlim()) - [lim.min(), lim.max()]).max() > 1e-9*max(
                np.abs(lim).max(), 1e-30):
            return f'figure over {a.get_xlim()}, not {lim.min()}, {lim.max()}'
        if a.images:
            z = a.images[0].get_array()
            far_z = np.asarray(np.ma.filled(z, np.nan), dtype=float)
            zz = p.z_data.magnitude.T
            if far_z.shape != zz.shape or not np.allclose(
                    far_z, zz, rtol=1e-9, atol=1e-9*np.nanmax(np.abs(zz)), equal_nan=True):
                return 'another image than what was saved'
            for v, c in zip(('vmin', 'vmax'), a.images[0].get_clim()):
                if r.look[v] and abs(c - r.look[v][0]/100) > 1e-9:
                    return f'{v} {c}'
        for v, c in zip(('lo', 'hi'), a.get_ylim()):
            if r.look[v] and abs(c - r.look[v][0]/100) > 1e-9:
                return f'energies up to/from {c}'
    if not all(len(a.images) == 1 for a in axes) and h['tool'] in ('map', 'powder'):
        return 'more than one image'
    why = looks(h['tool'], r.look, fig, axes)
    if why:
        return why
    if r.look['title'] and fig.get_suptitle() != r.look['title'][0]:
        return 'no title'
    for v, f in (('x', 'get_xlabel'), ('y', 'get_ylabel')):
        if r.look[v] and not any(getattr(a, f)() == r.look[v][0] for a in fig.axes):
            return f'no {v} label'
    return None


def looks(tool, look, fig, axes):
    """The style"""
    import matplotlib
    from euphonic.styles import base_style
    base = matplotlib.rc_params_from_file(base_style, use_default_template=False)

    def value(k, name):
        v = look['style'][k]
        if not v:
            return matplotlib.rcParams[name]
        return base[name] if v[0] in (0, 'base') else v
    size = value('figsize', 'figure.figsize')
    if look['style']['figsize']:
        size = [x/100*INCHES[look['figunit']] for x in size]
    if not np.allclose(fig.get_size_inches(), size, rtol=1e-9):
        return f'figure of {fig.get_size_inches()} inches, not {size}'
    if tool in ('dos', 'dispersion'):
        w = value('width', 'lines.linewidth')
        w = w[0]/100 if isinstance(w, list) else w
        got = {x.get_linewidth() for a in axes for x in a.lines}
        if got != {w}:
            return f'lines of width {got}, not {w}'
    else:
        c = value('cmap', 'image.cmap')
        c = c[0] if isinstance(c, list) else c
        got = {a.images[0].get_cmap().name for a in axes}
        if got != {c}:
            return f'colours {got}, not {c}'
    s = value('font', 'font.size')
    s = s[0]/100 if isinstance(s, list) else s
    got = {t.get_fontsize() for a in fig.axes for t in (a.xaxis.label, a.yaxis.label)
           if t.get_text()}
    if any(abs(x - s) > 1e-6 for x in got):
        return f'text of size {got}, not {s}'
    return None


def loading(ck, files, tmp):
    """Which file is read, and how"""
    from vf.stage import REPO
    data = os.path.join(REPO, 'tests_and_analysis', 'test', 'data')
    src = os.path.join(tmp, 'src')
    os.makedirs(src)
    nacl, castep = (os.path.join(data, 'phonopy_files', 'NaCl'),
                    os.path.join(data, 'castep_files'))

    def cp(a, b):
        shutil.copyfile(a, os.path.join(src, b))
    for name in ('phonopy', 'other'):
        cp(nacl + '/phonopy_nofc_noborn.yaml', name + '.yaml')
        cp(nacl + '/phonopy_nacl.yaml', name + '_fc.yaml')
    cp(nacl + '/FORCE_CONSTANTS_nacl', 'FORCE_CONSTANTS')
    # recognisable by their size
    import h5py
    for name, f in (('force_constants.hdf5', 1.5), ('renamed.hdf5', 2.)):
        cp(nacl + '/force_constants.hdf5', name)
        with h5py.File(os.path.join(src, name), 'r+') as h:
            h['force_constants'][...] *= f
    with open(nacl + '/BORN_nacl') as f:
        lines = f.read().splitlines()
    lines[2:] = [' '.join(str(float(x)*1.25) for x in t.split()) for t in lines[2:]]
    with open(os.path.join(src, 'BORN'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    for d in ('mesh', 'band', 'qpoints'):
        for f in os.listdir(os.path.join(nacl, d)):
            if f.split('.')[0] in (d, d + '_no_evec') and f.endswith(('yaml', 'hdf5')):
                cp(os.path.join(nacl, d, f), f)
    cp(castep + '/NaH/NaH.phonon', 'a.phonon')
    cp(castep + '/quartz/quartz.castep_bin', 'a.castep_bin')
    cp(castep + '/quartz/quartz.castep_bin', 'a.check')
    for f in ('fc', 'modes', 'freqs'):
        cp(files[f], f + '.json')
    with open(os.path.join(src, 'spectrum.json'), 'w') as f:
        f.write('{"x_data": [1, 2], "y_data": [1]}')
    for f in ('a.txt', 'noext'):
        with open(os.path.join(src, f), 'w') as g:
            g.write('1 2 3')
    t = ck.tlc('Load', invariants=['Enough', 'FreqsOnly', 'Emit'])
    em = t.emitted
    rng = L.rng_for(ck.seed, 'c28-load')
    cheap = [h for h in em if not h['dir']]
    rest = [h for h in em if h['dir']]
    n = ck.pick(14, 140)
    for h in cheap + [rest[i] for i in rng.permutation(len(rest))[:n]]:
        ck.replay(f'load {h["ask"]} of {h["dir"]}, frequencies only: {h["freqs"]}',
                  lambda: load(h, src, tmp), case=h)


def load(h, src, tmp):
    from euphonic import ForceConstants, QpointFrequencies, QpointPhononModes
    from euphonic.cli.utils import load_data_from_file
    d = os.path.join(tmp, 'dir')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in h['dir']:
        os.symlink(os.path.join(src, f), os.path.join(d, f.replace('_fc', '')))
    if not h['dir']:
        os.symlink(os.path.join(src, h['ask']), os.path.join(d, h['ask']))
    if h['ask'].endswith('hdf5') and h['got']['class'].startswith('Qpoint'):
        # the crystal is in the summary
        os.symlink(os.path.join(src, 'phonopy.yaml'), os.path.join(d, 'phonopy.yaml'))
    fn = os.path.join(d, h['ask'])
    want = h['got']
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            got = load_data_from_file(fn, frequencies_only=h['freqs'])
        except Exception as e:
            if want['class'] == 'error':
                return None
            raise Mismatch(f'{e!r} instead of {want}') from e
        if want['class'] == 'error':
            return f'read as {type(got).__name__}, should fail'
        if type(got).__name__ != want['class']:
            return f'read as {type(got).__name__}, not {want["class"]}'
        cls = {'ForceConstants': ForceConstants, 'QpointFrequencies': QpointFrequencies,
               'QpointPhononModes': QpointPhononModes}[want['class']]
        if 'summary' in want:
            kw = {'born_name': want['born'][0]} if want['born'] else {}
            ref = cls.from_phonopy(path=d, summary_name=want['summary'],
                                   fc_name=want['fc'], **kw)
        elif fn.endswith('json'):
            ref = cls.from_json_file(fn)
        elif fn.endswith(('phonon', 'castep_bin', 'check')):
            ref = cls.from_castep(fn)
        else:
            ref = cls.from_phonopy(path=d, phonon_name=want['name'])
    for name in ('force_constants', 'born', 'dielectric', 'frequencies', 'eigenvectors',
                 'qpts', 'weights', 'sc_matrix', 'cell_origins'):
        a, b = getattr(got, name, None), getattr(ref, name, None)
        if (a is None) != (b is None):
            return f'{name}: {"missing" if a is None else "not expected"}'
        if a is not None and not np.array_equal(getattr(a, 'magnitude', a),
                                                getattr(b, 'magnitude', b)):
            return f'{name} differ'
    if not np.array_equal(got.crystal.cell_vectors.magnitude,
                          ref.crystal.cell_vectors.magnitude):
        return 'cell vectors differ'
    return None
