"""C22: constructors accept arguments that fit together, and no others."""
import json
import os
import tempfile
import numpy as np
from vf import lattice as L
from vf import values as V

UNITS = {'cell_vectors': ('angstrom', 'K'), 'atom_mass': ('amu', 'K'),
         'force_constants': ('eV/angstrom**2', 'eV/angstrom'),
         'born': ('e', 'bohr'), 'dielectric': ('e**2/(bohr*hartree)', 'e'),
         'frequencies': ('meV', 'e'), 'structure_factors': ('bohr**2', 'e'),
         'temperature': ('K', 'bohr'), 'debye_waller': ('angstrom**2', 'e'),
         'x_data': ('meV', 'e'), 'y_data': ('1/meV', 'e'), 'z_data': ('mbarn', 'e')}
NAMES = {
    'Crystal': ['cell_vectors', 'atom_r', 'atom_type', 'atom_mass'],
    'ForceConstants': ['crystal', 'force_constants', 'sc_matrix', 'cell_origins',
                       'born', 'dielectric'],
    'QpointFrequencies': ['crystal', 'qpts', 'frequencies', 'weights'],
    'QpointPhononModes': ['crystal', 'qpts', 'frequencies', 'eigenvectors', 'weights'],
    'StructureFactor': ['crystal', 'qpts', 'frequencies', 'structure_factors',
                        'weights', 'temperature'],
    'DebyeWaller': ['crystal', 'debye_waller', 'temperature'],
    'Spectrum1D': ['x_data', 'y_data', 'x_tick_labels', 'metadata'],
    'Spectrum1DCollection': ['x_data', 'y_data', 'x_tick_labels', 'metadata'],
    'Spectrum2D': ['x_data', 'y_data', 'z_data', 'x_tick_labels', 'metadata'],
    'Spectrum2DCollection': ['x_data', 'y_data', 'z_data', 'x_tick_labels',
                             'metadata']}


def crystal_args(n):
    from euphonic import Quantity
    return {'cell_vectors': Quantity(np.array([[4, .3, 0], [0, 5, .1], [.2, 0, 6.]]),
                                     'angstrom'),
            'atom_r': np.arange(3.*n).reshape(n, 3)/10,
            'atom_type': np.array(['Na', 'Cl', 'O', 'H']*2, dtype='<U2')[:n],
            'atom_mass': Quantity(np.arange(1, n + 1)*7., 'amu')}


def array(name, shape, r):
    a = r.uniform(.1, 1, shape)
    if name == 'eigenvectors':
        return np.asarray(a + 1j*r.uniform(.1, 1, shape))
    if name == 'atom_type':
        a = np.full(shape, 'Na')
        a.flat[:1] = 'Cl'
        return a
    if name == 'cell_origins':
        return np.asarray(np.floor(a*3).astype(np.int32))
    if name == 'x_data' or name == 'frequencies':
        return np.sort(np.asarray(a).ravel()).reshape(shape)
    return np.asarray(a)


def value(name, a, r):
    """the argument described by a record of the model, and its magnitude"""
    from euphonic import Quantity, Crystal
    k, s = a['k'], tuple(a['s'])
    if k == 'n':
        return None
    if k == 't':
        return 'text'
    if k == 'f':
        return 2.
    if k == 'c':
        return Crystal(**crystal_args(a['v']))
    if k == 'd':
        d = {'key': 'word'}
        if a['v'] >= 0:
            d['line_data'] = [{'index': i} for i in range(a['v'])]
        return d
    if name == 'x_tick_labels' and k == 'l':
        return [(0, 'X'), (1, 'Y')]
    if name == 'sc_matrix' and s == (3, 3):
        x = np.array([[1, 1, 0], [0, max(a['v'], 1), 0], [0, 0, -1]])
    else:
        x = array(name, s, r)
    if k == 'l':
        return x.tolist()
    if k == 'a':
        return x
    u = UNITS.get(name, ('meV', 'e'))[0 if a['u'] else 1]
    # numbers have no shape
    return Quantity(float(np.real(x)) if s == () and x.dtype.kind in 'fc' and
                    r.integers(2) else x, u)


def dictionary(vals):
    """as to_dict() would give it"""
    from euphonic import Quantity
    d = {}
    for k, v in vals.items():
        if v is None:
            continue
        if isinstance(v, Quantity):
            d[k], d[k + '_unit'] = v.magnitude, str(v.units)
        elif type(v).__name__ == 'Crystal':
            d[k] = v.to_dict()
        else:
            d[k] = v
    return d


def jsonable(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and k == 'crystal':
            v = jsonable(v)
        elif isinstance(v, np.ndarray):
            v = np.stack([v.real, v.imag], -1).tolist() if np.iscomplexobj(v) \
                else v.tolist()
        out[k] = v
    return out


def attempt(f):
    try:
        return f(), None
    except (TypeError, ValueError) as e:
        return None, type(e).__name__
    # anything else is passed on


def case(c, d, seed):
    import euphonic
    cls = c['c']
    kl = getattr(euphonic, cls, None) or getattr(euphonic.spectra, cls)
    r = np.random.default_rng(seed)
    vals = {nm: value(nm, a, r) for nm, a in zip(NAMES[cls], c['a'])}
    shown = {nm: (a['k'], a['s'], a['v'], a['u']) for nm, a in zip(NAMES[cls], c['a'])
             if a['k'] != 'n'}
    cr = {k: V.plain(v) if k == 'crystal' else v for k, v in vals.items()}

    def judge(route, o, err):
        if c['ok'] and o is None:
            return f'{cls} {route} refused ({err}) arguments that fit: {shown}'
        if cls == 'Crystal' and c['a'][2]['s'] == [0] and \
                c['a'][2]['k'] == 'q' and not c['ok']:
            return None     # an empty list of types, whatever its type
        if not c['ok'] and o is not None:
            return f'{cls} {route} accepted arguments that do not fit: {shown}'
        if o is not None:
            w = V.from_args(cls, cr)
            x = V.plain(o)
            if cls == 'Crystal' and x[2]['n_atoms'] == ('V', 0):
                for q in w[2], x[2]:    # shapes of empty lists
                    q.pop('atom_r'), q.pop('atom_type')
            e = V.differ(x, w, 1e-14)
            if e:
                return f'{cls} {route} of {shown}: {e}'
        return None
    o, err = attempt(lambda: kl(**vals))
    e = judge('constructor', o, err)
    if e:
        return e
    if not any(x[1] == 'kind' for x in c['w']):
        dd = dictionary(vals)
        o, err = attempt(lambda: kl.from_dict(dd))
        e = judge('from_dict', o, err)
        if e:
            return e
        if all(0 not in a['s'] for a in c['a']) and hasattr(kl, 'from_json_file'):
            fn = os.path.join(d, 'x.json')
            with open(fn, 'w') as f:
                json.dump(jsonable(dd), f)
            o, err = attempt(lambda: kl.from_json_file(fn))
            return judge('from_json_file', o, err)
    return None


def run(ck):
    inv = ['Unchanged', 'Wrong', 'Emit']
    rng = L.rng_for(ck.seed, 'c22')
    one = ck.tlc('Checked', constants={'MaxChanges': 1, 'Sample': 1},
                 invariants=inv).emitted
    if ck.quick:
        more = ck.tlc('Checked', constants={'MaxChanges': 3, 'Sample': 1},
                      invariants=inv, simulate=60, depth=4, seed=ck.seed).emitted
    else:
        more = ck.tlc('Checked', constants={'MaxChanges': 2, 'Sample': 12},
                      invariants=inv).emitted
        more += ck.tlc('Checked', constants={'MaxChanges': 4, 'Sample': 1},
                       invariants=inv, simulate=600, depth=5, seed=ck.seed).emitted
    # rare: several changes that fit again
    fits = [x for x in more if x['n'] > 1 and x['ok']]
    rest = [x for x in more if not (x['n'] > 1 and x['ok'])]
    pick = [one[i] for i in rng.permutation(len(one))[:ck.pick(6000, 10**6)]]
    pick += [rest[i] for i in rng.permutation(len(rest))[:ck.pick(3000, 40000)]]
    pick += fits[:ck.pick(1500, 10000)]
    cnt = {}
    with tempfile.TemporaryDirectory() as d:
        for k, c in enumerate(pick):
            key = f'{"fits" if c["ok"] else "does not"}, {c["n"]} changes'
            cnt[key] = cnt.get(key, 0) + 1
            ck.replay(c['c'], lambda: case(c, d, k), case=c)
            if k < 3:
                ck.sample(c)
    ck.notes['cases'] = cnt
    ck.assumptions += ['contents of x_tick_labels and types of array entries are not '
                       'varied', 'temperatures are scalars',
                       'an error is a TypeError or ValueError (or subclass)']
