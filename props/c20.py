"""C20: dictionaries and JSON files."""
import numpy as np
from vf import lattice as L
from vf import values as V

CLASSES = list(V.ATTRS)
UN = {'length': ['bohr', 'angstrom', 'nm'], 'mass': ['amu', 'm_e', 'kg'],
      'energy': ['meV', 'hartree', '1/cm', 'THz'],
      'area': ['bohr**2', 'angstrom**2', 'mbarn'],
      'fc': ['hartree/bohr**2', 'eV/angstrom**2', 'meV/angstrom**2'],
      'temp': ['K', 'degC', 'mK'], 'dos': ['1/meV', 'mbarn/meV', 'cm', '']}


def q(v, u, lay):
    from euphonic import ureg
    v = V.layout(v, lay) if np.ndim(v) else v
    return ureg.Quantity(v, u)


def arguments(n, seed):
    """class and constructor arguments; n selects options"""
    r = np.random.default_rng([n, seed])
    cls = CLASSES[n % len(CLASSES)]
    k = r.integers(1000, size=12)
    u = lambda name, i: UN[name][k[i] % len(UN[name])]
    lay = lambda i: int(k[i])//3
    if cls.startswith('Spec'):
        nx, ny, nl = (int(v) for v in r.integers(1, 5, size=3))
        ex, ey = int(k[0] % 2), int(k[1] % 2)

        def val(sh):
            a = r.normal(size=sh)*10.**r.integers(-20, 20)
            if k[2] % 3 == 0 and a.size > 1:
                a.flat[0] = [np.nan, np.inf, -0.][k[3] % 3]
            if k[2] % 7 == 6:
                a = r.integers(0, 9, size=sh)
            return a
        sh = {'Spectrum1D': (nx,), 'Spectrum1DCollection': (nl, nx),
              'Spectrum2D': (nx, ny), 'Spectrum2DCollection': (nl, nx, ny)}[cls]
        a = {'x_data': q(np.sort(r.normal(size=nx + ex)), ['1/angstrom', 'meV', '1/cm'][k[4] % 3], lay(5))}
        d = q(val(sh), u('dos', 6), lay(7))
        if '2D' in cls:
            a['y_data'] = q(np.arange(ny + ey)*1.1, u('energy', 8), lay(9))
            a['z_data'] = d
        else:
            a['y_data'] = d
        t = [None, [], [(0, 'X')], [(np.int64(0), r'$\Gamma$'), (nx - 1, 'Y é')]][k[10] % 4]
        if t is not None:
            a['x_tick_labels'] = t
        m = [None, {}, {'a': 'b', 'c': 3}, {'label': 'x', 'n': -1, 'x_data': 'y'}][k[11] % 4]
        if 'Coll' in cls and k[9] % 2:
            m = {**(m or {}), 'line_data': [{'i': i} if i else {} for i in range(nl)]}
        if m is not None:
            a['metadata'] = m
        return cls, a
    nat = int(r.integers(1, 4))
    c = {'cell_vectors': q(r.normal(size=(3, 3)) + 5*np.eye(3), u('length', 0), lay(1)),
         'atom_r': V.layout(r.uniform(size=(nat, 3)), lay(2)),
         'atom_type': np.array(['Na', 'Cl', 'Si'])[r.integers(0, 3, nat)],
         'atom_mass': q(r.uniform(1, 100, nat), u('mass', 3), lay(4))}
    if cls in ('Crystal', 'QpointFrequencies') and k[5] % 4 == 0:
        c = {'cell_vectors': c['cell_vectors'], 'atom_r': np.array([]),
             'atom_type': np.array([]), 'atom_mass': q(np.array([], dtype=float), 'amu', 0)}
        nat = 0
    if cls == 'Crystal':
        return cls, c
    a = {'crystal': c}
    if cls == 'ForceConstants':
        sc = [np.eye(3, dtype=int), np.diag([2, 1, 1]), np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]])][k[5] % 3]
        ns = int(round(abs(np.linalg.det(sc))))
        a.update(force_constants=q(r.normal(size=(ns, 3*nat, 3*nat)), u('fc', 6), lay(7)),
                 sc_matrix=V.layout(sc, lay(8)),
                 cell_origins=V.layout(np.arange(3*ns).reshape(ns, 3), lay(9)).astype([np.int64, np.int32][k[8] % 2]))
        if k[10] % 3:
            a['dielectric'] = q(np.eye(3)*2.5, ['e**2/(bohr*hartree)', 'e**2/(angstrom*eV)'][k[11] % 2], lay(11))
            if k[10] % 3 == 1:
                a['born'] = q(r.normal(size=(nat, 3, 3)), ['e', 'C'][k[9] % 2], lay(0))
        return cls, a
    if cls == 'DebyeWaller':
        a.update(debye_waller=q(r.uniform(size=(nat, 3, 3)), u('area', 6), lay(7)),
                 temperature=q([300., 5, 0., 273.15][k[8] % 4], u('temp', 9), 0))
        return cls, a
    nq = int(r.integers(1, 4))
    nb = 3*nat if nat else int(r.integers(1, 5))
    a.update(qpts=V.layout(r.uniform(-1, 1, (nq, 3)), lay(6)),
             frequencies=q(r.uniform(-3, 60, (nq, nb)), u('energy', 7), lay(8)))
    if k[9] % 3:
        a['weights'] = V.layout(r.uniform(size=nq), lay(9))
    if cls == 'QpointPhononModes':
        a['eigenvectors'] = V.layout(r.normal(size=(nq, nb, nat, 3))
                                     + 1j*r.normal(size=(nq, nb, nat, 3)), lay(10))
    if cls == 'StructureFactor':
        a['structure_factors'] = q(r.uniform(size=(nq, nb)), u('area', 10), lay(11))
        if k[11] % 3:
            a['temperature'] = q([300., 5, 0.][k[11] % 3], u('temp', 5), 0)
    return cls, a


def build(cls, a):
    import euphonic
    a = dict(a)
    if 'crystal' in a:
        a['crystal'] = euphonic.Crystal(**a['crystal'])
    return (getattr(euphonic, cls, None) or getattr(euphonic.spectra, cls))(**a)


def make(n, seed):
    cls, a = arguments(n, seed)
    c = dict(a)
    if 'crystal' in a:
        c['crystal'] = V.from_args('Crystal', a['crystal'])
    content = V.from_args(cls, c)
    return cls, content, build(cls, a), a


def mutate(item, m):
    """change one part of an object or dictionary"""
    from euphonic import ureg
    v, cls = item.v, item.cls
    attrs = [x for x in V.ATTRS[cls] if not x.startswith('n_')]
    a = attrs[m % len(attrs)]
    if a == 'crystal':
        a = V.CRYSTAL[(m//len(attrs)) % 4]
        v = v['crystal'] if item.k == 'dict' else v.crystal
    if item.k == 'dict':
        if a == 'metadata':
            v.setdefault('metadata', {})[f'k{m}'] = m
            if 'line_data' in v['metadata']:
                v['metadata']['line_data'][0]['z'] = m
        elif a == 'x_tick_labels':
            if v.get(a) is None:
                v[a] = []
            v[a].append((0, f'L{m}'))
        elif v.get(a) is None:
            return f'{a} is none'
        elif isinstance(v[a], np.ndarray):
            if v[a].dtype.kind in 'fc':
                v[a][...] = v[a][..., ::-1]*1.5 if v[a].ndim else 3.
            elif v[a].dtype.kind == 'U':
                v[a][...] = 'K'
            elif a == 'sc_matrix':
                v[a][...] = -v[a]
            else:
                v[a] += 1
        else:
            v[a] = v[a]*1.5 + 1
        return f'dict {a}'
    x = getattr(v, a)
    if a == 'metadata':
        x[f'k{m}'] = m
        if 'line_data' in x:
            x['line_data'][-1]['z'] = m
    elif a == 'x_tick_labels':
        if x is None:
            v.x_tick_labels = [(0, 'new')]
        else:
            x.append((0, f'L{m}'))
    elif x is None:
        return f'{a} is none'
    elif isinstance(x, np.ndarray):
        if a == 'sc_matrix':
            v.sc_matrix = -x
        elif x.dtype.kind == 'U':
            v.atom_type = np.array(['K']*len(x)) if len(x) else x
        elif m % 2 and x.dtype.kind in 'fc':
            setattr(v, a, np.asfortranarray(x[::-1]*.5)[::-1])
        else:
            setattr(v, a, x + x.dtype.type(1))
    elif m % 3 == 0:
        un = str(x.units)
        for us in UN.values():
            if un in [str(ureg.Unit(w)) for w in us] and a != 'x_data':
                setattr(v, a + '_unit', us[(m//3) % len(us)]
                        if '' not in us else un)
                break
    else:
        setattr(v, a, ureg.Quantity(np.asfortranarray(x.magnitude)*2.5
                                    if np.ndim(x.magnitude) else
                                    x.magnitude*2 + 1, x.units))
    return f'{cls} {a}'


def run(ck):
    steps = 9
    r = ck.tlc('Values', constants={
        'Makes': 10*60, 'Ops': 0, 'Muts': 60, 'Dicts': True, 'MaxItems': 8,
        'MaxSteps': steps}, invariants=['Named', 'RoundTrip', 'Emit'],
        properties=['Frame'], simulate=ck.pick(120, 2000), depth=steps + 2,
        seed=ck.seed)
    rng = L.rng_for(ck.seed, 'c20')
    em = r.emitted
    rep = V.Replay(make, mutate)
    ops = {}
    for n, i in enumerate(rng.permutation(len(em))[:ck.pick(300, 5000)]):
        h = em[i]
        for s in h:
            ops[s['op']] = ops.get(s['op'], 0) + 1
        ck.replay('', lambda: rep.run(h), case=h)
        if n < 2:
            ck.sample([[s['op'], s['a'], s['i']] for s in h])
    ck.notes['calls'] = ops
    # every class with many options, straight there and back
    for n in range(ck.pick(300, 3000)):
        h = [{'op': 'make', 'a': n, 'i': 0, 'j': 0, 'cids': [1]}]
        for k, (op, i) in enumerate((('dump', 1), ('load', 2), ('write', 3),
                                     ('read', 4), ('write', 1))):
            h.append({'op': op, 'a': 0, 'i': i, 'j': 0, 'cids': [1]*(k + 2)})
        ck.replay(f'options {n}', lambda: rep.run(h), case=n)
    ck.assumptions += ['quantities of phonon objects are compared to 1e-14 '
                       '(unit conversions), all else bit by bit',
                       'metadata holds strings and integers, as documented']
