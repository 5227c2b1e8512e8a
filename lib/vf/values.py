"""Contents of objects, dictionaries and files, and the replay of behaviours
of Values.tla (see props/c20.py, c21.py)."""
import copy
import json
import os
import tempfile
import numpy as np

CRYSTAL = ['cell_vectors', 'atom_r', 'atom_type', 'atom_mass']
ATTRS = {
    'Crystal': ['n_atoms'] + CRYSTAL,
    'ForceConstants': ['crystal', 'force_constants', 'n_cells_in_sc', 'sc_matrix',
                       'cell_origins', 'born', 'dielectric'],
    'QpointFrequencies': ['crystal', 'n_qpts', 'qpts', 'frequencies', 'weights'],
    'QpointPhononModes': ['crystal', 'n_qpts', 'qpts', 'frequencies', 'weights',
                          'eigenvectors'],
    'StructureFactor': ['crystal', 'n_qpts', 'qpts', 'frequencies', 'weights',
                        'structure_factors', 'temperature'],
    'DebyeWaller': ['crystal', 'debye_waller', 'temperature'],
    'Spectrum1D': ['x_data', 'y_data', 'x_tick_labels', 'metadata'],
    'Spectrum1DCollection': ['x_data', 'y_data', 'x_tick_labels', 'metadata'],
    'Spectrum2D': ['x_data', 'y_data', 'z_data', 'x_tick_labels', 'metadata'],
    'Spectrum2DCollection': ['x_data', 'y_data', 'z_data', 'x_tick_labels',
                             'metadata']}
QUANT = {'cell_vectors', 'atom_mass', 'force_constants', 'born', 'dielectric',
         'frequencies', 'structure_factors', 'temperature', 'debye_waller',
         'x_data', 'y_data', 'z_data'}
ARRAYS = {'atom_r', 'atom_type', 'qpts', 'weights', 'eigenvectors', 'sc_matrix',
          'cell_origins'}


def plain(x):
    """content of a value: nested tuples with arrays as ('A', kind, array)"""
    from euphonic import Quantity
    if x is None or isinstance(x, (bool, str)):
        return None if x is None else ('V', str(x) if isinstance(x, str) else x)
    if isinstance(x, Quantity):
        m = np.asarray(x.magnitude)
        return ('Q', str(x.units), plain(m.astype(float) if m.dtype.kind in 'iu'
                                         else m))
    if isinstance(x, np.ndarray):
        k = x.dtype.kind
        return ('A', 'f' if k == 'f' else 'U' if k in 'US' else k,
                np.array(x, order='C', copy=True))
    if isinstance(x, (int, np.integer)):
        return ('V', int(x))
    if isinstance(x, (float, np.floating)):
        return ('A', 'f', np.array(float(x)))
    if isinstance(x, dict):
        return ('D', {str(k): plain(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return ('L', [plain(v) for v in x])
    n = type(x).__name__
    if n in ATTRS:
        return ('O', n, {a: plain(getattr(x, a)) for a in ATTRS[n]})
    return ('X', repr(x))


def from_args(cls, args):
    """content an object made from these arguments has"""
    out = {}
    for a in ATTRS[cls]:
        v = args.get(a)
        if a == 'n_atoms':
            v = len(args['atom_r'])
        elif a == 'n_qpts':
            v = len(args['qpts'])
        elif a == 'n_cells_in_sc':
            v = int(np.rint(abs(np.linalg.det(args['sc_matrix']))))
        elif a == 'weights' and v is None:
            v = np.full(len(args['qpts']), 1/len(args['qpts']))
        elif a == 'metadata' and v is None:
            v = {}
        elif a == 'crystal':
            out[a] = v if isinstance(v, tuple) else plain(v)
            continue
        out[a] = plain(v)
    return ('O', cls, out)


def from_dict(cls, d, from_file=False):
    """content of a dictionary made by to_dict(), or of a file"""
    from euphonic import Quantity
    out = {}
    for a in ATTRS[cls]:
        v = d.get(a)
        if a == 'metadata':
            v = {} if v is None else v
        elif a == 'crystal':
            out[a] = from_dict('Crystal', v, from_file)
            continue
        elif v is None:
            pass
        elif a in QUANT:
            v = Quantity(np.array(v) if from_file or not isinstance(v, list)
                         else 'not an array', d[a + '_unit'])
        elif a in ARRAYS and from_file:
            v = np.array(v)
            if a == 'eigenvectors':
                v = v[..., 0] + 1j*v[..., 1]
        elif a == 'x_tick_labels' and from_file:
            v = [tuple(t) for t in v]
        elif a in ARRAYS and not isinstance(v, np.ndarray):
            v = 'not an array'
        out[a] = plain(v)
    return ('O', cls, out)


def differ(a, b, tol=0., at=''):
    """description of a difference between two contents, or None"""
    if a is None or b is None:
        return None if a is b else f'{at}: {brief(a)} not {brief(b)}'
    if a[0] != b[0]:
        return f'{at}: {brief(a)} not {brief(b)}'
    if a[0] == 'V' or a[0] == 'X':
        return None if a[1] == b[1] and type(a[1]) is type(b[1]) else \
            f'{at}: {a[1]!r} not {b[1]!r}'
    if a[0] == 'Q':
        if a[1] != b[1]:
            return f'{at}: unit {a[1]} not {b[1]}'
        # conversions between display and internal units round
        return differ(a[2], b[2], max(tol, 1e-14), at)
    if a[0] == 'A':
        x, y = a[2], b[2]
        if x.size == 0 and y.size == 0:
            return None
        if a[1] != b[1] or x.shape != y.shape:
            return f'{at}: {a[1]}{x.shape} not {b[1]}{y.shape}'
        if a[1] in 'fc':
            s = np.abs(y[np.isfinite(y)]).max(initial=0)
            if a[1] == 'f':
                eq = np.array_equal(x, y, equal_nan=True) if not tol else \
                    np.allclose(x, y, rtol=tol, atol=tol*s, equal_nan=True)
            else:
                eq = np.array_equal(x, y) if not tol else \
                    np.allclose(x, y, rtol=tol, atol=tol*s)
        else:
            eq = np.array_equal(x, y)
        return None if eq else f'{at}: values {brief(a)} not {brief(b)}'
    if a[0] == 'L':
        if len(a[1]) != len(b[1]):
            return f'{at}: {len(a[1])} entries not {len(b[1])}'
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = differ(x, y, tol, f'{at}[{i}]')
            if r:
                return r
        return None
    if a[0] == 'O' and a[1] != b[1]:
        return f'{at}: {a[1]} not {b[1]}'
    x, y = a[-1], b[-1]
    if x.keys() != y.keys():
        return f'{at}: keys {sorted(x)} not {sorted(y)}'
    for k in x:
        r = differ(x[k], y[k], tol, f'{at}.{k}')
        if r:
            return r


def brief(a):
    if a is not None and a[0] == 'A':
        return f'{a[1]}{a[2].shape} {np.ravel(a[2])[:3]}'
    return str(a)[:60]


def layout(a, k):
    """the same array, laid out differently"""
    a = np.array(a)
    k %= 7
    if a.ndim == 0:
        return a
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:          # every second element of a larger one
        b = np.zeros(tuple(2*n for n in a.shape), dtype=a.dtype)
        s = tuple(slice(None, None, 2) for _ in a.shape)
        b[s] = a
        return b[s]
    if k == 3:          # backwards
        return a[::-1].copy()[::-1]
    if k == 4:          # transposed in memory
        p = tuple(range(a.ndim))[::-1]
        return np.ascontiguousarray(a.transpose(p)).transpose(p)
    if k == 5:
        b = np.zeros((2,) + a.shape, dtype=a.dtype)
        b[1] = a
        return b[1]
    if k == 6 and a.dtype.kind in 'f':
        return a.astype(np.longdouble).astype(np.float64)
    return a


class Item:
    def __init__(self, k, cls=None, v=None, args=None):
        self.k, self.cls, self.v, self.args = k, cls, v, args

    def content(self):
        if self.k == 'dead':
            return None
        if self.k == 'dict':
            return from_dict(self.cls, self.v)
        if self.k == 'file':
            with open(self.v) as f:
                d = json.load(f)
            return from_dict(self.cls, d, True)
        return plain(self.v)


class Replay:
    def __init__(self, make, mutate, operate=None, operate2=None, tol=1e-12):
        self.make, self.mutate = make, mutate
        self.operate, self.operate2 = operate, operate2
        self.tol = tol

    def run(self, hist):
        import contextlib
        import io
        with tempfile.TemporaryDirectory() as d, \
                contextlib.redirect_stdout(io.StringIO()):
            return self._run(hist, d)

    def _run(self, hist, d):
        import euphonic
        items, known, args, text = [], {}, [], {}
        trail = []
        for n, s in enumerate(hist):
            op, i = s['op'], s['i'] - 1
            cids = s['cids']
            src = items[i] if i >= 0 else None
            if src is not None and src.k == 'dead':
                if op != 'mut':
                    items.append(Item('dead'))
                trail.append('-')
                continue
            at = f'{op}{s["a"] or ""}'
            if op == 'make':
                cls, a, o, keep = self.make(s['a'], cids[-1])
                items.append(Item('obj', cls, o))
                # a constructor keeps what it is given ...
                r = differ(plain(o), a, 1e-14, cls)
                if r:
                    return f'{trail} make {cls}: {r}'
                # ... and its arguments are left alone
                # (a metadata dictionary is held, not copied)
                keep = {k: v for k, v in keep.items() if k != 'metadata'}
                args.append((keep, plain(keep)))
                at = f'{cls}{s["a"]}'
            elif op == 'dump':
                items.append(Item('dict', src.cls, src.v.to_dict()))
            elif op == 'write':
                fn = os.path.join(d, f'{n}.json')
                src.v.to_json_file(fn)
                items.append(Item('file', src.cls, fn))
                with open(fn) as f:
                    text[fn] = f.read()
                # exactly what the dictionary holds
                r = differ(items[-1].content(), from_dict(src.cls, src.v.to_dict()),
                           0., 'file')
                if r:
                    return f'{trail} {at}: {r}'
            elif op in ('load', 'read'):
                c = getattr(euphonic, src.cls, None) or \
                    getattr(euphonic.spectra, src.cls)
                o = c.from_dict(src.v) if op == 'load' else c.from_json_file(src.v)
                if type(o) is not c:
                    return f'{trail} {at}: {type(o)}'
                items.append(Item('obj', src.cls, o))
            elif op == 'mut':
                known_before = cids[i]
                what = self.mutate(src, s['a'])
                at = f'mut({what})'
                known[known_before] = src.content()
            else:
                j = s['j'] - 1
                if op == 'op2' and items[j].k == 'dead':
                    o, what = None, 'dead'
                elif op == 'op2':
                    o, what = self.operate2(src, items[j], s['a'])
                else:
                    o, what = self.operate(src, s['a'])
                at = f'{what}({i}{"" if j < 0 else ", " + str(j)})'
                items.append(Item('dead') if o is None else
                             Item('obj', type(o).__name__, o))
            trail.append(at)
            for q, (it, c) in enumerate(zip(items, cids)):
                if it.k == 'dead':
                    continue
                now = it.content()
                if c not in known:
                    known[c] = now
                    continue
                r = differ(now, known[c], self.tol, f'item {q} ({it.k} {it.cls})')
                if r:
                    return f'{trail}: {r}'
            for a, c in args:
                r = differ(plain(a), c, 0., 'argument')
                if r:
                    return f'{trail}: {r}'
            for fn, t in text.items():
                with open(fn) as f:
                    if f.read() != t:
                        return f'{trail}: file changed'
