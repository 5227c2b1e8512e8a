"""C21: operations and copies are isolated from each other."""
import numpy as np
from vf import lattice as L
from vf.check import Mismatch
from vf import values as V

NX, NY = 9, 6


def arguments(n, seed):
    from euphonic import ureg, Quantity
    r = np.random.default_rng([21, n, seed])
    cls = ['Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D',
           'Spectrum2DCollection', 'QpointFrequencies', 'QpointPhononModes',
           'StructureFactor', 'Spectrum1DCollection', 'ForceConstants',
           'Spectrum1D', 'Crystal', 'DebyeWaller'][n % 12]
    k = n//12
    if cls.startswith('Spec'):
        ex = k % 2
        nl = int(r.integers(1, 4))
        sh = {'Spectrum1D': (NX,), 'Spectrum1DCollection': (nl, NX),
              'Spectrum2D': (NX, NY), 'Spectrum2DCollection': (nl, NX, NY)}[cls]
        # the same axis for all with the same k: they can be added
        x = np.array([0, 1, 2, 3, 4, 5, 6, 7, 8, 9.])[:NX + ex]*(1 if k % 4 < 2 else 3)
        a = {'x_data': Quantity(x, 'meV' if '1D' in cls else '1/angstrom')}
        d = Quantity(r.uniform(.1, 1, sh), '1/meV' if '1D' in cls else 'mbarn/meV')
        if '2D' in cls:
            a['y_data'] = Quantity(np.arange(NY + (k//2) % 2)*2., 'meV')
            a['z_data'] = d
        else:
            a['y_data'] = d
        if k % 3:
            a['x_tick_labels'] = [(0, 'X'), (4, 'Y'), (NX - 1, 'Z')]
        m = {'a': int(r.integers(2)), 'b': 'q'}
        if 'Coll' in cls:
            m['line_data'] = [{'species': ['Na', 'Cl'][i % 2], 'index': i}
                              for i in range(nl)]
        if k % 5:
            a['metadata'] = m
        return cls, a
    c = {'cell_vectors': Quantity(np.array([[4, .3, 0], [0, 5, .1], [.2, 0, 6.]]),
                                  ['bohr', 'angstrom'][k % 2]),
         'atom_r': np.array([[0, 0, 0], [.4, .5, .45]]),
         'atom_type': np.array(['Na', 'Cl']),
         'atom_mass': Quantity(np.array([23., 35]), ['m_e', 'amu'][k//2 % 2])}
    if cls == 'Crystal':
        return cls, c
    a = {'crystal': c}
    if cls == 'ForceConstants':
        f = r.normal(size=(2, 6, 6))*.01
        f[0] = f[0] + f[0].T + np.eye(6)*.2
        f[1] = f[1] + f[1].T
        if k % 3 == 2:
            f[1] -= (f[0] + f[1])*.3
        a.update(force_constants=Quantity(f, ['hartree/bohr**2', 'eV/angstrom**2'][k % 2]),
                 sc_matrix=np.diag([1, 2, 1]),
                 cell_origins=np.array([[0, 0, 0], [0, 1, 0]], dtype=[np.int32, np.int64][k % 2]))
        if k % 2:
            a.update(born=Quantity(np.array([np.eye(3), -np.eye(3)]), 'e'),
                     dielectric=Quantity(np.eye(3)*2., 'e**2/(bohr*hartree)'))
        return cls, a
    if cls == 'DebyeWaller':
        a.update(debye_waller=Quantity(r.uniform(0, .1, (2, 3, 3)), ['bohr**2', 'angstrom**2'][k % 2]),
                 temperature=Quantity(300., 'K'))
        return cls, a
    nq = 5
    q = np.array([[0, 0, 0], [.1, 0, 0], [.2, 0, 0], [.5, .5, 0], [.5, .5, .25]])
    a.update(qpts=q, frequencies=Quantity(np.sort(r.uniform(.2, 1, (nq, 6)), axis=1)*.001,
                                          ['hartree', 'hartree', 'eV'][k % 3]))
    if k % 4:
        a['weights'] = r.uniform(size=nq)
    if cls == 'QpointPhononModes':
        e = [np.linalg.qr(r.normal(size=(6, 6)) + 1j*r.normal(size=(6, 6)))[0]
             for _ in range(nq)]
        a['eigenvectors'] = np.array(e).reshape(nq, 6, 2, 3)
    if cls == 'StructureFactor':
        a['structure_factors'] = Quantity(r.uniform(1, 9, (nq, 6)), ['bohr**2', 'mbarn'][k % 2])
        if k % 3:
            a['temperature'] = Quantity(200., ['K', 'degC'][k % 2])
    return cls, a


def make(n, seed):
    import euphonic
    cls, a = arguments(n, seed)
    c = dict(a)
    b = dict(a)
    if 'crystal' in a:
        c['crystal'] = V.from_args('Crystal', a['crystal'])
        b['crystal'] = euphonic.Crystal(**a['crystal'])
    o = (getattr(euphonic, cls, None) or getattr(euphonic.spectra, cls))(**b)
    return cls, V.from_args(cls, c), o, a


class Changed(Mismatch):
    pass


def frozen(v):
    from euphonic import Quantity
    if isinstance(v, Quantity):
        return (str(v.units), frozen(v.magnitude))
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, dict):
        return tuple((k, frozen(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return tuple(frozen(x) for x in v)
    if type(v).__name__ in V.ATTRS:
        return repr(V.plain(v))
    return repr(v) if not callable(v) else None


def kept(f, *args, **kw):
    """call f; its arguments must be as they were"""
    before = frozen([list(args), kw])
    try:
        return f(*args, **kw)
    finally:
        if frozen([list(args), kw]) != before:
            raise Changed(f'{getattr(f, "__name__", f)} changed its arguments: '
                          f'{args} {kw}'[:300])


def bins(u='meV'):
    from euphonic import Quantity
    return Quantity(np.linspace(0.5, 33, 12), 'meV').to(u)


def widths(u='meV'):
    from euphonic import Quantity
    w = np.full((5, 6), 2.)
    w[::2] = .001
    return Quantity(w, 'meV').to(u)


def utilities():
    """functions of arrays, each called with arrays of the internal types"""
    from euphonic import util, Quantity
    from euphonic import broadening as B, sampling as G
    from euphonic import powder as P
    r = np.random.default_rng(5)
    q = np.array([[0, 0, 0], [1, 0, 0], [.1, -.2, 1.3], [-.5, .5, 0]])
    x = Quantity(np.linspace(0, 1, 21), 'hartree')
    d = Quantity(r.uniform(size=20), '1/hartree')
    cent = Quantity((x.magnitude[1:] + x.magnitude[:-1])/2, 'hartree')
    w = Quantity(np.linspace(.05, .09, 20), 'hartree')
    yield util.direction_changed, (q,), {}
    yield util.is_gamma, (q,), {}
    yield util.is_gamma, (q[2],), {}
    yield util.get_all_origins, ([3, 2, 1],), {'min_xyz': [-1, 0, 0]}
    yield util.mp_grid, ([2, 3, 1],), {}
    yield util.mode_gradients_to_widths, (
        Quantity(r.uniform(-1, 1, (4, 6)), 'hartree*bohr'),
        Quantity(np.eye(3)*4, 'bohr')), {}
    yield util.get_qpoint_labels, (q,), {}
    yield util.convert_fc_phases, (
        r.normal(size=(2, 4, 3, 3)), np.array([[0, 0, 0], [.4, .5, .45]]),
        np.array([[0, 0, 0], [.4, .5, .45], [1, 0, 0], [1.4, .5, .45]]),
        np.array([0, 1]), np.array([0, 1, 0, 1]), np.diag([2, 1, 1])), {}
    yield B.variable_width_broadening, (x, cent, lambda v: w, np.ones(20)*.1), {
        'width_lower_limit': Quantity(np.array(.07), 'hartree')}
    yield B.variable_width_broadening, (x, cent, lambda v: v*.1, d), {
        'width_lower_limit': Quantity(.07, 'hartree'), 'shape': 'gauss',
        'width_convention': 'std'}
    yield B.width_interpolated_broadening, (x, cent, w, np.ones(20)*.1, .01), {}
    fc = make(8, 0)[2]
    dw = make(11, 0)[2]
    mod = Quantity(np.array(.7), '1/bohr')
    yield P.sample_sphere_dos, (fc, mod), {
        'npts': 5, 'energy_bins': bins('hartree'), 'use_c': False}
    yield P.sample_sphere_pdos, (fc, mod), {
        'npts': 5, 'energy_bins': bins('hartree'), 'use_c': False}
    for t in (dw, None):
        yield P.sample_sphere_structure_factor, (fc, mod), {
            'npts': 5, 'energy_bins': bins('hartree'), 'use_c': False,
            'dw': t, 'temperature': Quantity(np.array(300.), 'K'),
            'dw_spacing': Quantity(np.array(.4), '1/bohr'),
            'scattering_lengths': {'Na': Quantity(np.array(2.), 'bohr'),
                                   'Cl': Quantity(3., 'bohr')}}


def ops(cls):
    """operations: name, function"""
    from euphonic import Quantity, ureg
    import euphonic.spectra as S
    from euphonic import util
    w = lambda f, u: (lambda x: Quantity(.1*np.abs(x.to(u).magnitude) + f, u))
    spec = [('copy', lambda o: o.copy()), ('mul', lambda o: o*2.5),
            ('split0', lambda o: kept(o.split, indices=[4])[0]),
            ('split1', lambda o: kept(o.split, indices=np.array([4]))[1]),
            ('bins', lambda o: (o.get_bin_edges(), o.get_bin_centres(),
                                o.get_bin_widths(), None)[3]),
            ('regular', lambda o: o.assert_regular_bins(*(['x'] if '2D' in cls else [])))]
    coll = [('first', lambda o: o[0]), ('last', lambda o: o[-1]),
            ('slice', lambda o: o[0:1]), ('pick', lambda o: kept(o.__getitem__, [len(o) - 1, 0])),
            ('sum', lambda o: o.sum()), ('select', lambda o: o.select(species='Na')),
            ('group', lambda o: o.group_by('species')),
            ('again', lambda o: kept(type(o).from_spectra, list(o))),
            ('meta', lambda o: (list(o.iter_metadata()), None)[1])]
    xu = 'meV' if '1D' in cls else '1/angstrom'
    b1 = [('broaden', lambda o: kept(o.broaden, Quantity(np.array(2.2), xu))),
          ('lorentz', lambda o: o.broaden(Quantity(2.2, xu), shape='lorentz'))]
    b1v = [('broaden_f', lambda o: o.broaden(w(1., xu)))]
    col1 = [('collect', lambda o: S.Spectrum1DCollection.from_spectra([o, o]))]
    col2 = [('collect', lambda o: S.Spectrum2DCollection.from_spectra([o, o])),
            ('broaden_y', lambda o: kept(o.broaden, y_width=Quantity(3., 'meV'))),
            ('broaden_xy', lambda o: kept(o.broaden, x_width=Quantity(2., xu),
                                             y_width=w(2., 'meV'))),
            ('broaden_0', lambda o: o.broaden()),
            ('broaden_yf', lambda o: o.broaden(y_width=w(2., 'meV'))),
            ('kinematic', lambda o: kept(
                S.apply_kinematic_constraints, o, e_i=Quantity(np.array(9.), 'meV'),
                angle_range=[100, -30]))]
    if cls == 'Spectrum1D':
        return spec + b1 + b1v + col1
    if cls == 'Spectrum1DCollection':
        return spec + coll + b1 + b1v
    if cls == 'Spectrum2D':
        return spec + b1 + col2
    if cls == 'Spectrum2DCollection':
        return spec + coll
    if cls == 'Crystal':
        return [('recip', lambda o: none(o.reciprocal_cell(), o.cell_volume(),
                                         o.to_spglib_cell(), o.get_species_idx())),
                ('symm', lambda o: none(o.get_symmetry_equivalent_atoms())),
                ('grid', lambda o: none(kept(o.get_mp_grid_spec, Quantity(np.array(.1), '1/bohr'))))]
    if cls == 'ForceConstants':
        q = np.array([[0, 0, 0], [0, 0, 0], [.1, .2, .3], [.5, 0, 0]])

        def calc(o, **kw):
            qq, ww = q.copy(), np.array([.1, .2, .3, .4])
            m = kept(o.calculate_qpoint_phonon_modes, qq, weights=ww, use_c=False, **kw)
            m = m[0] if isinstance(m, tuple) else m
            return m
        return [('modes', calc),
                ('freqs', lambda o: kept(o.calculate_qpoint_frequencies, q.copy(), use_c=False)),
                ('asr', lambda o: calc(o, asr='reciprocal')),
                ('asr_r', lambda o: calc(o, asr='realspace')),
                ('grads', lambda o: calc(o, return_mode_gradients=True)),
                ('insert', lambda o: calc(o, insert_gamma=True)),
                ('split', lambda o: calc(o, splitting=False))]
    if cls == 'DebyeWaller':
        return [('nothing', lambda o: None)]
    qf = [('dos', lambda o: kept(o.calculate_dos, bins('hartree'))),
          ('dosmap', lambda o: kept(o.calculate_dos_map, bins('hartree'))),
          ('disp', lambda o: o.get_dispersion()),
          ('adaptive', lambda o: kept(
              o.calculate_dos, bins('hartree'), mode_widths=widths('hartree'),
              mode_widths_min=Quantity(np.array(1e-4), 'hartree'))),
          ('fast', lambda o: kept(
              o.calculate_dos, bins('hartree'), mode_widths=widths('hartree'),
              adaptive_method='fast')),
          ('map_w', lambda o: kept(
              o.calculate_dos_map, bins('hartree'), mode_widths=widths('hartree')))]
    if cls == 'QpointFrequencies':
        return qf
    if cls == 'StructureFactor':
        return qf + [('freqs', lambda o: o.to_qpoint_frequencies()),
                     ('sqw', lambda o: kept(
                         o.calculate_sqw_map, bins('hartree'), temperature=None
                         if o.temperature is not None else
                         Quantity(np.array(200.), 'K'))),
                     ('avg', lambda o: kept(o.calculate_1d_average, bins('hartree'),
                                                weights=np.array([.1, .2, .3, .4, 0])))]
    return qf + [('freqs', lambda o: o.to_qpoint_frequencies()),
                 ('pdos', lambda o: kept(o.calculate_pdos, bins('hartree'), mode_widths=widths('hartree'))),
                 ('sf', lambda o: kept(o.calculate_structure_factor,
                                              scattering_lengths={'Na': Quantity(np.array(2.), 'bohr'),
                                                                  'Cl': Quantity(3., 'fm')})),
                 ('dw', lambda o: kept(
                     o.calculate_debye_waller, Quantity(np.array(100.), 'K'),
                     frequency_min=Quantity(np.array(.01), 'hartree'), symmetrise=False))]


def none(*a):
    return None


def operate(item, a):
    import warnings
    o = item.v
    fs = ops(type(o).__name__)
    name, f = fs[a % len(fs)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return f(o), name
        except (ValueError, IndexError, TypeError, AssertionError) as e:
            # e.g. uneven bins after a modification; nothing may have changed
            return None, f'{name} refused'


def operate2(p, q, a):
    o, r = p.v, q.v
    n, m = type(o).__name__, type(r).__name__
    try:
        if n == m and n.startswith('Spectrum1D'):
            return o + r, 'add'
        if n == m and n == 'Spectrum2D':
            from euphonic.spectra import Spectrum2DCollection
            return Spectrum2DCollection.from_spectra([o, r]), 'collect'
        if n == m and n == 'Spectrum2DCollection':
            return o + r, 'add'
        if n == 'QpointPhononModes' and m == 'DebyeWaller':
            return o.calculate_structure_factor(dw=r), 'sf'
        if n == 'QpointPhononModes' and m in ('QpointFrequencies', 'StructureFactor'):
            from euphonic import QpointPhononModes
            return QpointPhononModes(o.crystal, o.qpts, r.frequencies,
                                     o.eigenvectors, o.weights), 'with frequencies'
        if m == 'QpointPhononModes':
            from euphonic import QpointPhononModes
            # another object around the same arrays
            return QpointPhononModes(r.crystal, r.qpts, r.frequencies,
                                     r.eigenvectors, r.weights), 'again'
    except (ValueError, AssertionError, TypeError):
        return None, 'refused'
    return None, 'nothing'


def mutate(item, m):
    from euphonic import ureg, Quantity
    o, cls = item.v, item.cls
    if cls.startswith('Spec'):
        acts = ['scale', 'data', 'x', 'meta', 'line', 'label', 'labels', 'unit', 'nan']
        a = acts[m % len(acts)]
        d = 'z_data' if '2D' in cls else 'y_data'
        if a == 'scale':
            o *= 3.
        elif a == 'data':
            setattr(o, d, getattr(o, d)*1.5)
        elif a == 'nan':
            v = getattr(o, d)*1.
            v.magnitude.flat[:1] = 0.
            setattr(o, d, v)
        elif a == 'x':
            o.x_data = o.x_data + Quantity(1., o.x_data.units)
        elif a == 'line':
            for l in o.metadata.get('line_data', [o.metadata]):
                l[f'l{m}'] = m
        elif a == 'meta':
            o.metadata[f'k{m}'] = m
            o.metadata.pop('b', None)
        elif a == 'label':
            if o.x_tick_labels:
                o.x_tick_labels[0] = (0, f'L{m}')
            else:
                o.x_tick_labels = [(1, 'M')]
        elif a == 'labels':
            if o.x_tick_labels is not None:
                o.x_tick_labels.append((2, 'W'))
        elif '2D' in cls or o.y_data.check('1/[energy]'):
            o.y_data_unit = {'meV': '1/cm'}.get(str(o.y_data_unit), 'meV') \
                if '2D' in cls else '1/hartree'
        return f'{cls} {a}'
    if cls == 'Crystal':
        a = ['atom_r', 'mass', 'cell', 'unit'][m % 4]
        if a == 'atom_r':
            o.atom_r = o.atom_r + .01
        elif a == 'mass':
            o.atom_mass = o.atom_mass*1.1
        elif a == 'cell':
            o.cell_vectors = o.cell_vectors*1.1
        else:
            o.cell_vectors_unit = ['nm', 'bohr'][m//4 % 2]
        return f'{cls} {a}'
    # crystals may be shared between phonon objects; their own properties not
    if cls == 'ForceConstants':
        a = ['fc', 'fcunit', 'born'][m % 3]
        if a == 'fc':
            o.force_constants = o.force_constants*1.1
        elif a == 'fcunit':
            o.force_constants_unit = 'meV/nm**2'
        elif o.born is not None:
            o.born = o.born*1.1
        return f'{cls} {a}'
    if cls == 'DebyeWaller':
        a = ['dw', 'T', 'unit'][m % 3]
        if a == 'dw':
            o.debye_waller = o.debye_waller*2
        elif a == 'T':
            o.temperature = Quantity(10., 'K')
        else:
            o.debye_waller_unit = 'nm**2'
        return f'{cls} {a}'
    acts = ['freq', 'unit', 'qpts', 'weights']
    acts += ['reorder', 'reorder', 'evec'] if cls == 'QpointPhononModes' else []
    acts += ['sf', 'T'] if cls == 'StructureFactor' else []
    a = acts[m % len(acts)]
    if a == 'freq':
        o.frequencies = o.frequencies*1.1
    elif a == 'unit':
        o.frequencies_unit = ['THz', 'hartree'][m//8 % 2]
    elif a == 'qpts':
        o.qpts = o.qpts + .01
    elif a == 'weights':
        o.weights = o.weights*2
    elif a == 'reorder':
        o.reorder_frequencies()
    elif a == 'evec':
        o.eigenvectors = o.eigenvectors[:, ::-1]
    elif a == 'sf':
        o.structure_factors = o.structure_factors*2
    else:
        o.temperature = Quantity(77., 'K')
    return f'{cls} {a}'


def run(ck):
    steps = 10
    r = ck.tlc('Values', constants={
        'Makes': 12*12, 'Ops': 60, 'Muts': 72, 'Dicts': False, 'MaxItems': 8,
        'MaxSteps': steps}, invariants=['Named', 'RoundTrip', 'Emit'],
        properties=['Frame'], simulate=ck.pick(220, 3000), depth=steps + 2,
        seed=ck.seed)
    rng = L.rng_for(ck.seed, 'c21')
    em = r.emitted
    rep = V.Replay(make, mutate, operate, operate2, tol=1e-11)
    cnt = {}
    for n, i in enumerate(rng.permutation(len(em))[:ck.pick(450, 8000)]):
        h = em[i]
        for s in h:
            cnt[s['op']] = cnt.get(s['op'], 0) + 1
        ck.replay('', lambda: rep.run(h), case=h)
        if n < 2:
            ck.sample([[s['op'], s['a'], s['i'], s['j']] for s in h])
    ck.notes['calls'] = cnt
    for f, args, kw in utilities():
        ck.replay(f.__name__, lambda: (kept(f, *args, **kw), None)[1],
                  case=f.__name__)
    # every operation of every class, then every modification of the result
    # and of the operand
    for n in range(12):
        cls = arguments(n, 1)[0]
        for a in range(len(ops(cls))):
            for k in range(ck.pick(4, 24)):
                m1, m2 = int(rng.integers(1, 73)), int(rng.integers(1, 73))
                h = [{'op': 'make', 'a': n + 12*int(rng.integers(12)), 'i': 0,
                      'j': 0, 'cids': [1]},
                     {'op': 'op', 'a': a, 'i': 1, 'j': 0, 'cids': [1, 2]},
                     {'op': 'mut', 'a': m1, 'i': 2, 'j': 0, 'cids': [1, 3]},
                     {'op': 'mut', 'a': m2, 'i': 1, 'j': 0, 'cids': [4, 3]},
                     {'op': 'op', 'a': a, 'i': 1, 'j': 0, 'cids': [4, 3, 5]}]
                ck.replay('', lambda: rep.run(h), case=h)
    ck.assumptions += ['the crystal object is shared between phonon objects '
                       'made from each other, and is not modified here',
                       'arrays are modified through the properties of objects']
