"""C19: units of every quantity."""
import math
import numpy as np
from vf import lattice as L
from vf.check import Skip

# SI (CODATA 2018); everything the units below need
H, C0, E0 = 6.62607015e-34, 299792458., 1.602176634e-19
A0, HA, ME = 5.29177210903e-11, 4.3597447222071e-18, 9.1093837015e-31
AMU = 1.66053906660e-27
HC = H*C0
# dimension: {unit: (factor, reciprocal, offset)}
LENGTH = {'bohr': A0, 'angstrom': 1e-10, 'nm': 1e-9, 'm': 1., 'fermi': 1e-15}
ENERGY = {'hartree': HA, 'meV': 1e-3*E0, 'eV': E0, 'J': 1., '1/cm': 100*HC,
          'THz': 1e12*H, 'nm': (HC/1e-9, True)}
AREA = {'bohr**2': A0**2, 'angstrom**2': 1e-20, 'mbarn': 1e-31, 'barn': 1e-28,
        'cm**2': 1e-4}
DIMS = {
    'length': LENGTH,
    'energy': ENERGY,
    # spectra also convert to inverse energies
    'energy_s': {**ENERGY, '1/meV': (1e-3*E0, True), 'ps': (H/1e-12, True)},
    'mass': {'m_e': ME, 'amu': AMU, 'kg': 1., 'g': 1e-3},
    'fc': {'hartree/bohr**2': HA/A0**2, 'eV/angstrom**2': E0*1e20, 'N/m': 1.,
           'meV/nm**2': 1e-3*E0*1e18},
    'charge': {'e': E0, 'C': 1.},
    'dielectric': {'e**2/(bohr*hartree)': E0**2/A0/HA,
                   'e**2/(angstrom*eV)': E0**2/1e-10/E0, 'F/m': 1.},
    'area': AREA,
    'temperature': {'K': 1., 'degC': (1., False, 273.15), 'mK': 1e-3,
                    'degF': (5/9, False, 459.67*5/9)},
    'wavevector': {'1/bohr': 1/A0, '1/angstrom': 1e10, '1/nm': 1e9,
                   '1/cm': 100., 'meV': 1e-3*E0/HC, 'nm': (1e9, True)},
    'dos': {'1/hartree': 1/HA, '1/meV': 1/(1e-3*E0), 'cm': 1/(100*HC),
            '1/THz': 1/(1e12*H), 'eV': (1/E0, True)},
    'sqw': {'bohr**2/hartree': A0**2/HA, 'mbarn/meV': 1e-31/(1e-3*E0),
            'barn/J': 1e-28, 'angstrom**2/eV': 1e-20/E0},
}
BAD = ['kg*m', 'foo', 'mol', '2 meV', 'kelvin*s', 'mev', 'm_E', '(']
BADQ = ['kg*m', 'mol', 'kelvin*s']
# only the spectra know these
BAD_FIXED = {'energy': ['1/meV', '1/hartree'], 'area': ['1/bohr**2', 'bohr'],
             'temperature': ['1/K', 'meV'], 'charge': ['1/e']}


def unit(dim, k):
    name = list(DIMS[dim])[k]
    f = DIMS[dim][name]
    f = f if isinstance(f, tuple) else (f, False)
    return name, f[0], f[1], f[2] if len(f) > 2 else 0.


def number(v, dim, k):
    """SI value as a number in unit k of dim"""
    _, f, rec, off = unit(dim, k)
    return f/v if rec else (v - off)/f


CRYSTAL = [('crystal.cell_vectors', 'length'), ('crystal.atom_mass', 'mass')]
WORLDS = {
    'Crystal': [('cell_vectors', 'length'), ('atom_mass', 'mass')],
    'ForceConstants': [('force_constants', 'fc'), ('born', 'charge'),
                       ('dielectric', 'dielectric')] + CRYSTAL,
    'QpointFrequencies': [('frequencies', 'energy')] + CRYSTAL,
    'QpointPhononModes': [('frequencies', 'energy')] + CRYSTAL,
    'StructureFactor': [('frequencies', 'energy'), ('structure_factors', 'area'),
                        ('temperature', 'temperature')] + CRYSTAL,
    'DebyeWaller': [('debye_waller', 'area'), ('temperature', 'temperature')]
    + CRYSTAL,
    'Spectrum1D': [('x_data', 'energy_s'), ('y_data', 'dos')],
    'Spectrum1DCollection': [('x_data', 'wavevector'), ('y_data', 'energy_s')],
    'Spectrum2D': [('x_data', 'wavevector'), ('y_data', 'energy_s'),
                   ('z_data', 'dos')],
    'Spectrum2DCollection': [('x_data', 'wavevector'), ('y_data', 'energy_s'),
                             ('z_data', 'sqw')]}
NULL = {'StructureFactor': ['temperature'], 'ForceConstants': ['born', 'dielectric']}
OPS = {'Crystal': 5, 'ForceConstants': 3, 'QpointFrequencies': 5,
       'QpointPhononModes': 5, 'StructureFactor': 4, 'DebyeWaller': 2,
       'Spectrum1D': 5, 'Spectrum1DCollection': 5, 'Spectrum2D': 5,
       'Spectrum2DCollection': 4}
# calculations that use spglib (symmetry, labels)
SPGLIB = {'Crystal': [3], 'QpointFrequencies': [1, 2], 'StructureFactor': [0, 1]}
CANON = {'length': 'bohr', 'mass': 'm_e', 'fc': 'hartree/bohr**2', 'charge': 'e',
         'dielectric': 'e**2/(bohr*hartree)', 'area': 'bohr**2',
         'energy': 'hartree', 'temperature': 'K'}


def bad_units(dim, cls):
    return BAD + ([] if cls.startswith('Spec') else BAD_FIXED.get(dim, []))


def worlds():
    out = []
    for null in (False, True):
        for cls, fields in WORLDS.items():
            if null and cls not in NULL:
                continue
            fs = []
            for name, dim in fields:
                us = []
                for k in range(len(DIMS[dim])):
                    _, f, rec, off = unit(dim, k)
                    us.append({'s': round(off) if dim == 'temperature' else
                               round(math.log2(f)), 'rec': rec})
                fs.append({'units': us, 'null': name in NULL.get(cls, []),
                           'bad': len(bad_units(dim, cls)), 'badq': len(BADQ),
                           'fixed': 0 if cls.startswith('Spec') else
                           1 + list(DIMS[dim]).index(CANON[dim])})
            out.append({'cls': cls, 'fields': fs, 'ops': OPS[cls],
                        'null': null})
    return out


# ---- values: SI arrays for token p
NQ = 4
QPTS = np.array([[0, 0, 0], [.1, .2, .3], [.25, .25, .4], [.3, .4, .5]])


def pattern(name, dim, cls):
    r = np.random.default_rng(len(name)*7 + len(dim))
    if name == 'cell_vectors':
        return np.array([[6.3, .2, 0], [.5, 7.1, .3], [-.2, .1, 8.7]])*A0
    if name == 'atom_mass':
        return np.array([23., 35.5])*AMU
    if name == 'force_constants':
        a = r.normal(size=(2, 6, 6))
        a[0] = a[0] @ a[0].T + 9*np.eye(6)
        a[1] = a[1] + a[1].T
        return a*.02*HA/A0**2
    if name == 'born':
        return np.array([np.diag([1., 1.1, .9]), -np.diag([1., 1.1, .9])])*E0
    if name == 'dielectric':
        return np.diag([2., 2.5, 3.])*E0**2/A0/HA
    if name == 'frequencies':
        return np.sort(r.uniform(3, 40, (NQ, 6)), axis=1)*1e-3*E0
    if name == 'structure_factors':
        return r.uniform(1, 40, (NQ, 6))*A0**2
    if name == 'debye_waller':
        return np.array([np.eye(3)*.3, np.diag([.2, .3, .1])])*A0**2
    if name == 'temperature':
        return np.array(110.)
    f = unit(dim, 1)[1]
    if name == 'x_data':
        return np.arange(2., 8.)*f
    if name == 'y_data':
        if cls == 'Spectrum1D':
            return r.uniform(1, 9, 6)*f
        if cls == 'Spectrum1DCollection':
            return r.uniform(1, 9, (2, 6))*f
        return np.arange(3., 8.)*f
    sh = (6, 4) if cls == 'Spectrum2D' else (2, 6, 5)
    return r.uniform(1, 9, sh)*f


class World:
    def __init__(self, cls):
        self.cls, self.fields = cls, WORLDS[cls]

    def value(self, f, p):
        name, dim = self.fields[f]
        return pattern(name.split('.')[-1], dim, self.cls)*2.**p

    def quantity(self, f, p, u):
        from euphonic import ureg
        dim = self.fields[f][1]
        n = number(self.value(f, p), dim, u)
        return ureg.Quantity(n if n.ndim else float(n), unit(dim, u)[0])

    def make(self, val, disp):
        import euphonic as e
        qs = {}
        for f, (name, _) in enumerate(self.fields):
            qs[name.split('.')[-1]] = None if val[f] == 1000 else \
                self.quantity(f, val[f], disp[f] - 1)
        if 'cell_vectors' in qs:
            cr = e.Crystal(qs['cell_vectors'], np.array([[0, 0, 0], [.4, .5, .6]]),
                           np.array(['Na', 'Cl']), qs['atom_mass'])
        c = self.cls
        if c == 'Crystal':
            return cr
        if c == 'ForceConstants':
            return e.ForceConstants(cr, qs['force_constants'], np.diag([2, 1, 1]),
                                    np.array([[0, 0, 0], [1, 0, 0]]),
                                    qs['born'], qs['dielectric'])
        w = np.array([.1, .2, .3, .4])
        if c == 'QpointFrequencies':
            return e.QpointFrequencies(cr, QPTS, qs['frequencies'], w)
        if c == 'QpointPhononModes':
            return e.QpointPhononModes(cr, QPTS, qs['frequencies'], evecs(), w)
        if c == 'StructureFactor':
            return e.StructureFactor(cr, QPTS, qs['frequencies'],
                                     qs['structure_factors'], w, qs['temperature'])
        if c == 'DebyeWaller':
            return e.DebyeWaller(cr, qs['debye_waller'], qs['temperature'])
        from euphonic import spectra
        m = {} if 'Coll' not in c else {'line_data': [{'a': 1}, {'a': 2}]}
        return getattr(spectra, c)(*qs.values(), x_tick_labels=[(1, 'X'), (3, 'Y')],
                                   metadata={'b': 3, **m})


def evecs():
    r = np.random.default_rng(5)
    out = []
    for _ in range(NQ):
        q, _ = np.linalg.qr(r.normal(size=(6, 6)) + 1j*r.normal(size=(6, 6)))
        out.append(q.T.reshape(6, 2, 3))
    return np.array(out)


def owner(o, name):
    *path, last = name.split('.')
    for p in path:
        o = getattr(o, p)
    return o, last


def observe(wd, o, s, val, disp):
    from euphonic import ureg
    for f, (name, dim) in enumerate(wd.fields):
        ob, a = owner(o, name)
        g = getattr(ob, a)
        un = unit(dim, disp[f] - 1)[0]
        if val[f] == 1000:
            if g is not None:
                return f'{name} is {g}'
            continue
        if g.units != ureg.Unit(un):
            return f'{name} in {g.units}, not {un}'
        ex = number(wd.value(f, val[f]), dim, disp[f] - 1)
        gm = np.asarray(g.magnitude)
        tol = 3e-9*np.abs(ex) + 3e-9*(np.abs(ex).max() if unit(dim, disp[f]-1)[3]
                                      else 0)
        if gm.shape != ex.shape or not np.all(np.abs(gm - ex) <= tol):
            return f'{name} in {un}: {gm.ravel()[:3]} not {np.ravel(ex)[:3]}'
        if getattr(ob, a + '_unit') is None or \
                ureg.Unit(str(getattr(ob, a + '_unit'))) != ureg.Unit(un):
            return f'{name}_unit is {getattr(ob, a + "_unit")}'


def results(cls, o, op, b, full):
    """(name, value) of calculation op; argument units vary with b"""
    from euphonic import ureg, Quantity
    en = Quantity(np.linspace(1.03, 170, 14), 'meV').to(
        ['meV', 'eV', 'hartree', 'J'][b % 4])
    T = Quantity(217.3, 'K').to(['K', 'degC', 'mK', 'degF'][b % 4])
    ln = ['bohr', 'angstrom', 'nm', 'm'][b % 4]
    if cls == 'Crystal':
        return [lambda: o.reciprocal_cell(), lambda: o.cell_volume(),
                lambda: o.get_mp_grid_spec(Quantity(.1234567, '1/angstrom').to('1/' + ln)),
                lambda: o.get_symmetry_equivalent_atoms(Quantity(1e-3, 'bohr').to(ln)),
                lambda: dict(o.get_species_idx())][op]()
    if cls == 'ForceConstants':
        if op == 0:
            m, g = o.calculate_qpoint_phonon_modes(
                QPTS[1:], return_mode_gradients=True, use_c=False)
            return m.frequencies, g
        if op == 1:
            return o.calculate_qpoint_frequencies(
                QPTS[1:], asr='reciprocal', use_c=False).frequencies
        return o.calculate_qpoint_frequencies(QPTS[1:], asr='realspace',
                                              use_c=False).frequencies
    if cls == 'QpointFrequencies' or (cls in ('QpointPhononModes', 'StructureFactor')
                                      and op > 2):
        ws = Quantity(np.full((NQ, 6), 3.), 'meV').to(['1/cm', 'meV'][b % 2])
        return [lambda: o.calculate_dos(en), lambda: o.calculate_dos_map(en),
                lambda: o.get_dispersion(), lambda: o.calculate_dos(en, mode_widths=ws,
                mode_widths_min=Quantity(1., 'meV').to('THz')),
                lambda: o.calculate_dos(en)][op]()
    if cls == 'QpointPhononModes':
        if op == 0:
            s = o.calculate_structure_factor(
                scattering_lengths={'Na': Quantity(3.6, 'fm').to(ln),
                                    'Cl': Quantity(9.6, 'fm').to('bohr')})
            return s.structure_factors, s.frequencies
        if op == 1:
            d = o.calculate_debye_waller(T, symmetrise=False,
                                         frequency_min=Quantity(.01, 'meV').to('1/cm'))
            return d.debye_waller, d.temperature
        return o.calculate_pdos(en, weighting='coherent')
    if cls == 'StructureFactor':
        if op == 0:
            return o.calculate_sqw_map(en)
        if op == 1:
            return o.calculate_sqw_map(en, calc_bose=False)
        return o.calculate_1d_average(en)
    if cls == 'DebyeWaller':
        import euphonic as e
        if op == 1:
            return o.temperature.to('K'), o.crystal.cell_volume()
        m = e.QpointPhononModes(o.crystal, QPTS, Quantity(
            pattern('frequencies', 'energy', '')/E0*1e3, 'meV'), evecs())
        return m.calculate_structure_factor(dw=o).structure_factors
    # spectra: only linear units in the oracle's comparison of sizes
    if op == 0:
        return [o.get_bin_edges(), o.get_bin_centres(), o.get_bin_widths()] \
            if cls != 'Spectrum2D' else [o.get_bin_edges('y'), o.get_bin_edges('x')]
    if op == 1:
        return o*3.
    if op == 2:
        return o.split(indices=[3])
    if op == 3:
        return o.sum() if 'Coll' in cls else o
    if cls in ('Spectrum1D', 'Spectrum1DCollection'):
        return o + o
    return o.copy()


def flat(x, out):
    """quantities and other content of a result"""
    from euphonic import spectra
    if isinstance(x, (list, tuple)):
        for v in x:
            flat(v, out)
    elif isinstance(x, spectra.Spectrum):
        for n in ('x_data', 'y_data', 'z_data'):
            if hasattr(x, n):
                out.append(getattr(x, n))
        out.append(repr(x.metadata))
        out.append(repr(x.x_tick_labels))
    else:
        out.append(x)
    return out


def same(a, b):
    a, b = flat(a, []), flat(b, [])
    if len(a) != len(b):
        return 'other structure'
    for x, y in zip(a, b):
        if hasattr(x, 'units'):
            try:
                xm = x.to(y.units, 'reciprocal_spectroscopy').magnitude
            except Exception:
                return f'{x.units} against {y.units}'
            ym = y.magnitude
            s = np.abs(ym).max() if np.size(ym) else 0
            if np.shape(xm) != np.shape(ym) or not np.allclose(
                    xm, ym, rtol=1e-7, atol=1e-8*s):
                return f'{np.ravel(xm)[:4]} not {np.ravel(ym)[:4]} {y.units}'
        elif isinstance(x, np.ndarray):
            if not np.array_equal(x, y):
                return f'{x} not {y}'
        elif isinstance(x, dict):
            if repr(x) != repr(y):
                return f'{x} not {y}'
        elif x != y:
            return f'{x} not {y}'


def behaviour(ck, cls, hist):
    wd = World(cls)
    o = made = None
    for n, s in enumerate(hist):
        val, disp = s['val'], s['disp']
        at = f'step {n} {s["op"]}'
        if s['op'] in ('new', 'rebuild'):
            made = disp
        if s['op'] == 'new':
            o = wd.make(val, disp)
        elif s['op'] in ('unit', 'assign'):
            f = s['f'] - 1
            name, dim = wd.fields[f]
            ob, a = owner(o, name)
            if s['ok']:
                at += f' {name} {unit(dim, s["a"] - 1)[0]}'
                if s['op'] == 'unit':
                    setattr(ob, a + '_unit', unit(dim, s['a'] - 1)[0])
                else:
                    setattr(ob, a, wd.quantity(f, s['b'], s['a'] - 1))
            else:
                from euphonic import ureg
                bad = (bad_units(dim, cls) if s['op'] == 'unit' else BADQ)[s['a'] - 1]
                at += f' {name} {bad}'
                try:
                    if s['op'] == 'unit':
                        setattr(ob, a + '_unit', bad)
                    else:
                        x = wd.value(f, 0)
                        setattr(ob, a, ureg.Quantity(x, bad))
                except Exception:
                    pass
                else:
                    return at + ': accepted'
        elif s['op'] == 'rebuild':
            if cls == 'ForceConstants' and val[2] == 1000 != val[1]:
                raise Skip      # charges without a dielectric tensor
            o = type(o).from_dict(o.to_dict())
        elif s['op'] == 'calc':
            if cls == 'ForceConstants' and (val[1] == 1000) != (val[2] == 1000):
                continue
            # an object that holds the same values in the first units
            ref = wd.make(val, [1]*len(val))
            at += f' {s["f"]}/{s["a"]} units ' + \
                str([unit(d, u - 1)[0] for (_, d), u in zip(wd.fields, disp)])
            if cls.startswith('Spectrum'):
                # sums or edges in reciprocal units are other sums or edges
                if any(unit(d, u - 1)[2] for q in (disp, made)
                       for (_, d), u in zip(wd.fields, q)):
                    continue
            op = s['f'] - 1
            metre = any(n.endswith('cell_vectors') and disp[f] - 1
                        == list(LENGTH).index('m')
                        for f, (n, _) in enumerate(wd.fields))
            try:
                bad = same(results(cls, o, op, s['a'], True),
                           results(cls, ref, op, 0, True))
            except RuntimeError as e:
                if not (metre and cls == 'Crystal' and op == 3):
                    raise
                bad = f'{e}'
            if bad and metre and op in SPGLIB.get(cls, ()):
                # symmetries and labels come from spglib
                ck.violation(f'{cls} {at}: {bad}', key='spglib-metre')
            elif bad:
                return f'{at}: {bad}'
        bad = observe(wd, o, s, val, disp)
        if bad:
            return f'{at}: {bad}'


def run(ck):
    ws = worlds()
    steps = 8
    r = ck.tlc('Units', cases=ws, constants={'MaxSteps': steps},
               invariants=['Agrees', 'ReadBack', 'Emit'],
               simulate=ck.pick(150, 2500), depth=steps + 2, seed=ck.seed)
    rng = L.rng_for(ck.seed, 'c19')
    em = r.emitted
    by = {}
    for e in em:
        by.setdefault(e['w'], []).append(e['h'])
    n = ck.pick(36, 600)
    ops = {}
    for w in sorted(by):
        cls = ws[w - 1]['cls']
        hs = by[w]
        for i in rng.permutation(len(hs))[:n]:
            h = hs[i]
            for s in h:
                k = s['op'] + ('' if s['ok'] else ' refused')
                ops[k] = ops.get(k, 0) + 1
            ck.replay(f'{cls} ' + ' '.join(s['op'] for s in h),
                      lambda: behaviour(ck, cls, h), case=[cls, h])
        if w < 3:
            ck.sample({'class': cls, 'history': hs[0]})
    ck.notes['calls'] = ops
    ck.notes['classes'] = {ws[w - 1]['cls']: len(by[w]) for w in by}
    ck.assumptions += ['conversion factors are CODATA 2018, compared to 3e-9',
                       'calculations are compared with those of an object that '
                       'holds the same values in other units, to 1e-7']
