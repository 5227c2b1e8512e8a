"""C31: spectra in text files."""
import json
import os
import re
import tempfile
import numpy as np
from vf import lattice as L
from vf.check import Mismatch

XU = [('meV', '1/cm'), ('1/angstrom', '1/bohr'), ('THz', 'meV')]
YU = [('1/meV', '1/hartree'), ('mbarn/meV', 'barn/eV')]
SPEC = {'two': '%.2f', 'one': '%.1f', 'whole': '%d', 'all': '%.18e'}
SHAPE = {'two': r'-?\d+\.\d\d', 'one': r'-?\d+\.\d', 'whole': r'-?\d+',
         'all': r'[-+]?\d\.\d{18}e[-+]\d+'}
UNIT = {'two': 100, 'one': 10, 'whole': 1, 'all': 8}


def run(ck):
    rng = L.rng_for(ck.seed, 'c31')
    with tempfile.TemporaryDirectory(prefix='c31_') as tmp:
        for pts, nl, num in ((6, 4, ck.pick(500, 8000)), (3, 2, ck.pick(200, 2000))):
            t = ck.tlc('TextFile', constants={'MaxPts': pts, 'MaxLines': nl},
                       invariants=['Faithful', 'Ascending', 'Emit'],
                       simulate=2*num, depth=40, seed=ck.seed)
            for k, i in enumerate(rng.permutation(len(t.emitted))[:num]):
                h = t.emitted[i]
                ck.replay(f'{h["sp"]} {h["fmt"]}', lambda: one(h, k, tmp), case=h)
                if k % 120 == 0:
                    ck.sample([h['sp'], h['fmt'], h['file']['rows'][0]])


def meta(m):
    return {k: v['t'] or v['i'] for k, v in (m or {}).items()}


def one(h, k, tmp):
    from euphonic import Quantity
    from euphonic.spectra import Spectrum1D, Spectrum1DCollection
    s = h['sp']
    (xu, xv), (yu, yv) = XU[s['units'] % 3], YU[s['units'] % 2]
    x = Quantity(np.array(s['x'])/4, xu)
    y = Quantity(np.array(s['y'])/4, yu)
    common = meta(s['common'][0]) if s['common'] else {}
    if s['lone']:
        o = Spectrum1D(x, y[0], metadata=common or None)
    else:
        md = dict(common)
        if s['lines']:
            md['line_data'] = [meta(m) for m in s['lines']]
        o = Spectrum1DCollection(x, y, metadata=md or None)
    fx = fy = 1.
    if s['conv']:
        o.x_data_unit, o.y_data_unit = xv, yv
        fx, fy = (Quantity(1., a).to(b, 'reciprocal_spectroscopy').magnitude
                  for a, b in ((xu, xv), (yu, yv)))
        xu, yu = xv, yv
    before = json.dumps(o.to_dict(), default=lambda a: a.tolist())
    fn = os.path.join(tmp, 'spectrum.txt')
    f = [SPEC[x] for x in h['fmt']]
    if not f:
        o.to_text_file(fn)
    elif len(f) == 1:
        o.to_text_file(fn, fmt=f[0])
    else:
        o.to_text_file(fn, f if k % 2 else tuple(f))
    if json.dumps(o.to_dict(), default=lambda a: a.tolist()) != before:
        return 'the spectrum has been changed'
    lines = open(fn).read().splitlines()
    head = [x for x in lines if x.startswith('#')]
    rows = [x.split() for x in lines if not x.startswith('#') and x.strip()]
    if lines[:len(head)] != head:
        return 'comments among the data'
    # the header: units, and what is known of each column
    for name, unit in (('x_data', xu), ('y_data', yu)):
        m = [re.search(name + r' in \((.*)\)$', x) for x in head]
        m = [x.group(1) for x in m if x]
        if len(m) != 1 or Quantity(1., m[0]).units != Quantity(1., unit).units:
            return f'{name} in {m}, not {unit}'
    m = [x for x in head if 'Common metadata:' in x]
    if len(m) != 1:
        return f'common metadata {m}'
    c = json.loads(m[0].split('metadata:', 1)[1])
    cols = [re.match(r'#\s*Column (\d+):\s*(\S+)\s*(.*)$', x) for x in head]
    cols = [x.groups() for x in cols if x]
    if [int(x[0]) for x in cols] != list(range(1, len(s['y']) + 2)):
        return f'columns {[x[0] for x in cols]}'
    if cols[0][1] != 'x_data':
        return 'first column is not x'
    for i, w in enumerate(h['file']['head']):
        got = {**c, **json.loads(cols[i + 1][2] or '{}')}
        if got != meta(w):
            return f'column {i + 2} is {got}, not {meta(w)}'
    # the data
    if len(rows) != len(h['file']['rows']):
        return f'{len(rows)} rows'
    for r, w in zip(rows, h['file']['rows']):
        if len(r) != len(w):
            return f'{len(r)} columns'
        for i, (cell, (f, n)) in enumerate(zip(r, w)):
            if not re.fullmatch(SHAPE[f], cell):
                raise Mismatch(f'{cell} is not formatted as {f}')
            v = n/UNIT[f]*(fy if i else fx)
            if abs(float(cell) - v) > 1e-13*max(abs(v), 1e-3):
                raise Mismatch(f'{cell} in column {i + 1}, not {v}')
    return None
