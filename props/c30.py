"""C30: reference data of elements."""
import json
import os
import tempfile
import warnings
import numpy as np
from vf import lattice as L
from vf.check import Mismatch

AREA = 'mbarn'


def run(ck):
    rng = L.rng_for(ck.seed, 'c30')
    num = ck.pick(1500, 20000)
    with tempfile.TemporaryDirectory(prefix='c30_') as tmp:
        t = ck.tlc('RefData', constants={'MaxProps': 3, 'MaxVals': 4},
                   invariants=['Complete', 'SameWeights', 'Emit'],
                   simulate=3*num, depth=45, seed=ck.seed)
        for k, i in enumerate(rng.permutation(len(t.emitted))[:num]):
            h = t.emitted[i]
            ck.replay(f'{h["ask"]} of {h["file"]["props"]}: {h["err"]}',
                      lambda: one(h, k, tmp), case=h)
            if k % 60 == 0:
                ck.sample([h['ask'], h['file'], h['err'], h['weights']])
    builtin(ck)


def number(v, k):
    """text of a number"""
    def t(x, whole):
        if whole:
            return str(x//100)
        return (repr(x/100), f'{x}e-2', '%.4f' % (x/100))[k % 3]
    if v['k'] == 'int':
        return t(v['re'], True)
    if v['k'] == 'float':
        return t(v['re'], False)
    if v['k'] == 'complex':
        p = [f'"real": {t(v["re"], k % 2 and v["re"] % 100 == 0)}',
             f'"imag": {t(v["im"], False)}']
        c = ['"__complex__": true']
        return '{' + ', '.join(c + p if k % 2 else p[::-1] + c) + '}'
    return {'text': '"see below"', 'number in quotes': '"1.25"', 'null': 'null'}[v['k']]


def write(f, fn, k):
    props = []
    for n, p in enumerate(f['props']):
        e = [f'"{x["el"]}": {number(x["v"], k + n)}' for x in p['vals']]
        if p['unit']:
            e.insert((k + n) % (len(e) + 1), f'"__units__": "{p["unit"][0]}"')
        props.append(f'"{p["name"]}": {{{", ".join(e)}}}')
    top = [f'"{"physical_property" if f["key"] else "physics"}": {{{", ".join(props)}}}']
    if k % 2:
        top.insert(k//2 % 2, '"description": "some data"')
    with open(fn, 'w') as o:
        o.write('{' + ',\n '.join(top) + '}')


def crystal(species):
    from euphonic import Crystal, ureg
    n = len(species)
    r = np.array([[.1, .2, .3], [.55, .4, .8], [.3, .9, .15]])[:n]
    m = {'Na': 23., 'Cl': 35., 'H': 1., 'D': 2.}
    return Crystal(L.cell_from_gram(L.GRAMS['tric'])*2*ureg('angstrom'), r,
                   np.array(species), np.array([m[s] for s in species])*ureg('amu'))


def modes(species):
    from euphonic import QpointPhononModes, ureg
    n = len(species)
    rng = L.rng_for(n, 'c30-modes')
    ev = rng.normal(size=(3, 3*n, n, 3)) + 1j*rng.normal(size=(3, 3*n, n, 3))
    return QpointPhononModes(crystal(species), rng.uniform(-2, 2, (3, 3)),
                             rng.uniform(2, 30, (3, 3*n))*ureg('meV'), ev)


def forces(species):
    from euphonic import ForceConstants, ureg
    n = 3*len(species)
    a = L.rng_for(n, 'c30-fc').normal(size=(n, n))
    return ForceConstants(crystal(species), (a @ a.T)[None]*.02*ureg('hartree/bohr**2'),
                          np.eye(3, dtype=int), np.zeros((1, 3), dtype=int))


def same(a, b, what):
    """of two spectra or structure factors"""
    for at in ('y_data', 'structure_factors'):
        if hasattr(b, at):
            x, y = getattr(a, at), getattr(b, at)
            if str(x.units) != str(y.units):
                raise Mismatch(f'{what}: in {x.units}, not {y.units}')
            x, y = x.magnitude, y.magnitude
            if x.shape != y.shape or np.isnan(x).any() or \
                    np.abs(x - y).max() > 1e-9*max(np.abs(y).max(), 1e-30):
                raise Mismatch(f'{what}: other values')


def one(h, k, tmp):
    from pint import DimensionalityError
    errors = {'value': ValueError, 'attribute': AttributeError, 'key': KeyError,
              'dimension': (ValueError, DimensionalityError),
              'key or dimension': (KeyError, ValueError, DimensionalityError)}
    fn = os.path.join(tmp, 'data.json')
    if os.path.exists(fn):
        os.remove(fn)
    if h['file']['there']:
        write(h['file'], fn, k)
    want = errors.get(h['err'])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = answer(h, fn, k)
    except (KeyError, ValueError, AttributeError, DimensionalityError) as e:
        if not want or not isinstance(e, want):
            raise Mismatch(f'{e!r} instead of {h["err"] or "an answer"}') from e
        return None
    if want:
        return f'no error, {h["err"]} expected'
    return r


def answer(h, fn, k):
    from euphonic import Quantity, ureg
    from euphonic.util import get_reference_data
    from euphonic.powder import sample_sphere_pdos, sample_sphere_structure_factor
    what, w, species = (h['ask'][x] for x in ('what', 'w', 'species'))
    if what == 'data':
        g = (get_reference_data(fn, w) if k % 2 else
             get_reference_data(physical_property=w, collection=fn))
        if h['err']:
            return None
        w = h['got'][0]
        if set(g) != {x['el'] for x in w['vals']}:
            return f'elements {sorted(g)}, not {[x["el"] for x in w["vals"]]}'
        for x in w['vals']:
            y = g[x['el']]
            v = (x['v']['re'] + 1j*x['v']['im'])/100
            if not isinstance(y, Quantity) or \
                    not isinstance(y.magnitude, (float, complex)):
                return f'{x["el"]} is a {type(getattr(y, "magnitude", y))}'
            z = complex(y.to(ureg(w['unit']).units).magnitude)/ureg(w['unit']).magnitude
            if abs(z - v) > 1e-12*max(1, abs(v)):
                return f'{x["el"]} is {y}, not {v} {w["unit"]}'
        return None
    unit = 'fm' if 'structure' in what else AREA
    weights = {s: complex(v['re'], v['im'])/100 if v['im'] else v['re']/100
               for s, v in zip(species, h['weights'])}
    table = {s: Quantity(v, unit) for s, v in weights.items()}
    rng = L.rng_for(k, 'c30-use')
    bins = Quantity(np.linspace(0, 40 if what == 'pdos' else 150, 7), 'meV')
    q = rng.uniform(.5, 2)*ureg('1/angstrom')
    kw = {'sampling': 'golden', 'energy_bins': bins, 'npts': 4}
    wt = {'': None, 'none': None, 'both': 'coherent-plus-incoherent'}.get(w, w)
    if what == 'structure factor':
        m = modes(species)
        a = m.calculate_structure_factor(scattering_lengths=fn)
        b = lambda: m.calculate_structure_factor(scattering_lengths=table)
    elif what == 'powder structure factor':
        f = forces(species)
        a = sample_sphere_structure_factor(
            f, q, scattering_lengths=fn, temperature=None, **kw)
        b = lambda: sample_sphere_structure_factor(
            f, q, scattering_lengths=table, temperature=None, **kw)
    elif what == 'pdos':
        m = modes(species)
        a = m.calculate_pdos(bins, weighting=wt, cross_sections=fn)
        b = lambda: (m.calculate_pdos(bins) if wt is None else
                     m.calculate_pdos(bins, cross_sections=table))
    else:
        f = forces(species)
        a = sample_sphere_pdos(f, q, weighting=wt, cross_sections=fn, **kw)
        b = lambda: (sample_sphere_pdos(f, q, **kw) if wt is None else
                     sample_sphere_pdos(f, q, cross_sections=table, **kw))
    if not h['err']:
        same(a, b(), what)
    return None


def builtin(ck):
    """the collections of the package: everything in them is given, they agree
    with each other, and they work for every element"""
    import euphonic.data
    from importlib.resources import files
    from euphonic import ureg
    from euphonic.util import get_reference_data
    raw = {}
    for name, fn in (('Sears1992', 'sears-1992.json'), ('BlueBook', 'bluebook.json')):
        raw[name] = json.loads((files(euphonic.data)/fn).read_text())['physical_property']

    def value(v):
        if isinstance(v, dict):
            return complex(v['real'], v['imag'])
        return v if type(v) in (int, float) else None
    for name, props in raw.items():
        for prop, entries in props.items():
            def all_given():
                g = get_reference_data(name, prop)
                w = {e: value(v) for e, v in entries.items() if value(v) is not None}
                if set(g) != set(w):
                    return f'{sorted(set(g) ^ set(w))} of {name}, {prop}'
                for e, v in w.items():
                    if abs(g[e].to(entries['__units__']).magnitude - v) > 1e-9:
                        return f'{e} of {name}, {prop}: {g[e]}'
            ck.replay(f'{name} {prop}', all_given)

    def agree():
        b = get_reference_data('Sears1992', 'coherent_scattering_length')
        for e, s in get_reference_data('BlueBook', 'coherent_cross_section').items():
            if e in b:
                t = 4*np.pi*abs(b[e].to('fm').magnitude)**2/100
                if abs(t - s.to('barn').magnitude) > .05*t + .02:
                    return f'{e}: {b[e]} and {s}'
        return None
    ck.replay('scattering lengths and cross sections', agree)
    elements = [e for e, v in raw['BlueBook']['coherent_cross_section'].items()
                if value(v) is not None]
    inc = raw['BlueBook']['incoherent_cross_section']
    m0 = modes(['Na', 'Cl'])
    for e in elements:
        def weighs():
            from euphonic import Crystal, Quantity, QpointPhononModes
            c = m0.crystal
            m = QpointPhononModes(
                Crystal(c.cell_vectors, c.atom_r, np.array([e, e]), c.atom_mass),
                m0.qpts, m0.frequencies, m0.eigenvectors)
            bins = Quantity(np.linspace(0, 40, 5), 'meV')
            a = m.calculate_pdos(bins, weighting='coherent-plus-incoherent')
            x = value(raw['BlueBook']['coherent_cross_section'][e]) + value(inc[e])
            b = m.calculate_pdos(bins, cross_sections={e: x*ureg('barn')})
            same(a, b, e)
        ck.replay(f'neutron weighted PDOS of {e}', weighs)
