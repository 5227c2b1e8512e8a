"""C23: CASTEP files."""
import os
import shutil
import tempfile
import numpy as np
from vf import lattice as L

KINDS = ['O', 'Si', 'La:x', 'H']
MASS = [15.9994, 28.0855, 138.9055, 1.00794]
DIRS = [None, (1., 0., 0.), (0., -1., .5), (.577350, .577350, -.577350)]
QPTS = [(0., 0., 0.), (-.25, -.25, .5), (.333333, -.333333, 0.),
        (-.125, .0625, -12.5)]


def run(ck):
    rng = L.rng_for(ck.seed, 'c23')
    tmp = tempfile.mkdtemp(prefix='c23_')
    try:
        _run(ck, rng, tmp)
    finally:
        shutil.rmtree(tmp)


def _run(ck, rng, tmp):
    inv = ['Conserved', 'Onto', 'Emit']
    for kind, one, num in (('phonon', phonon, (130, 1500)), ('dos', dos, (60, 600)),
                           ('bin', castep_bin, (130, 1500))):
        n = {'phonon': 6, 'dos': 8, 'bin': 9}[kind]
        t = ck.tlc('Castep', constants={'MaxBlocks': n, 'Kind': kind},
                   invariants=inv, simulate=ck.pick(*num), depth=n + 2,
                   seed=ck.seed)
        em = [e for e in t.emitted if kind != 'dos' or (e['rows'] and e['blocks'])]
        for k, i in enumerate(rng.permutation(len(em))[:ck.pick(*num)]):
            h = em[i]
            what = [(b['id'], b['dir']) for b in h['blocks']] if 'blocks' in h \
                else [r['name'] for r in h['recs']] + [h['state']]
            ck.replay(f'{kind} {h["crystal"]} {what}',
                      lambda: one(h, k, ck.seed, tmp), case={'kind': kind, 'h': h})
            if k % 60 == 0:
                ck.sample([kind, h['crystal'], what])


class Content:
    """The numbers of a text file, rounded as it shows them."""
    def __init__(self, h, k, seed):
        self.rng = r = L.rng_for(seed, 'c23', str(h))
        self.sp = [(s + k - 1) % 4 for s in h['species']]
        self.n = n = len(self.sp)
        self.cell = np.round(r.normal(size=(3, 3))*3, 6) + 5*np.eye(3)
        self.r = np.round(r.uniform(-.2, 1.1, (n, 3)), 6)
        self.freq = [np.round(np.sort(r.normal(300., 300., 3*n)), 6)
                     for _ in h['blocks']]
        self.evec = [np.round(r.uniform(-1., 1., (3*n, n, 3, 2)), 12)
                     for _ in h['blocks']]
        self.grad = [np.round(r.uniform(0., 200., 3*n), 7) for _ in h['blocks']]
        self.cols = k % 3
        self.w = [b['w']/16 for b in h['blocks']]

    def head(self, kind, h):
        n = self.n
        ids = len({b['id'] for b in h['blocks']})
        out = [' BEGIN header']
        if kind == 'phonon':
            out += [f' Number of ions         {n}', f' Number of branches     {3*n}',
                    f' Number of wavevectors  {ids}',
                    ' Frequencies in         cm-1',
                    ' IR intensities in      (D/A)**2/amu',
                    ' Raman activities in    A**4 amu**(-1)']
        else:
            out += [f'  Number of ions               {n}',
                    f'  Number of species            {len(set(self.sp))}',
                    f'  Number of branches           {3*n}',
                    f'  Number of bins in DOS        {h["rows"]}']
        out.append(' Unit cell vectors (A)')
        out += ['    %.6f    %.6f    %.6f' % tuple(v) for v in self.cell]
        out.append(' Fractional Co-ordinates')
        out += ['%6d    %.6f    %.6f    %.6f   %-3s   %12.6f'
                % (i + 1, *self.r[i], KINDS[s], MASS[s])
                for i, s in enumerate(self.sp)]
        return out + [' END header']

    def point(self, b):
        d = DIRS[b['dir']]
        return ('     q-pt=%5d  %10.6f%10.6f%11.6f      %.10f' % (
            b['id'], *QPTS[b['q'] - 1], b['w']/16)
            + ('' if d is None else '   %9.6f %9.6f %9.6f' % d))

    def crystal_wrong(self, c):
        a = c.cell_vectors.to('angstrom').magnitude
        if not np.allclose(a, self.cell, rtol=1e-9, atol=1e-9):
            return f'cell {a.tolist()} should be {self.cell.tolist()}'
        if c.atom_r.shape != self.r.shape or np.abs(c.atom_r - self.r).max() > 1e-12:
            return f'positions {c.atom_r.tolist()} should be {self.r.tolist()}'
        if list(c.atom_type) != [KINDS[s] for s in self.sp]:
            return f'types {c.atom_type}'
        m = c.atom_mass.to('amu').magnitude
        if not np.allclose(m, [MASS[s] for s in self.sp], rtol=1e-9):
            return f'masses {m}'


def far(q, want, what, rtol=1e-9):
    q = np.asarray(q)
    want = np.asarray(want)
    if q.shape != want.shape:
        return f'{what}: shape {q.shape} should be {want.shape}'
    s = 1 + np.abs(want).max(initial=0)
    if not np.abs(q - want).max(initial=0) <= rtol*s:
        return f'{what}: {q.tolist()} should be {want.tolist()}'


def phonon(h, k, seed, tmp):
    from euphonic import QpointFrequencies, QpointPhononModes
    c = Content(h, k, seed)
    out = c.head('phonon', h)
    for b, f, e in zip(h['blocks'], c.freq, c.evec):
        out.append(c.point(b))
        out += ['%8d%16.6f' % (i + 1, x) + '%24.7f'*min(c.cols, 2) % tuple(
            [7.5, 3.25][:c.cols]) + ' '*20 for i, x in enumerate(f)]
        out += ['                        Phonon Eigenvectors',
                'Mode Ion                X                   Y                 Z']
        out += ['%4d%4d' % (i + 1, a + 1) + '%16.12f%16.12f    '*3
                % tuple(e[i, a].flatten()) for i in range(len(f)) for a in range(c.n)]
    p = os.path.join(tmp, 'x.phonon')
    with open(p, 'w') as o:
        o.write('\n'.join(out) + '\n')
    q = [QPTS[b['q'] - 1] for b in h['blocks']]
    for o in h['out']:
        for cls in (QpointPhononModes, QpointFrequencies):
            kw = dict(average_repeat_points=o['avg'], prefer_non_loto=o['prefer'])
            if o['avg'] and not o['prefer'] and k % 2:
                kw = {}
            try:
                d = cls.from_castep(p, **kw)
            except ValueError as e:
                if o['ok']:
                    raise
                if not any(str(b['id']) in str(e) for b in h['blocks']):
                    return f'message does not say which q-point: {e}'
                continue
            if not o['ok']:
                return f'{cls.__name__} {kw}: not refused'
            w = [x[0]/x[1]/16 for x in o['w']]
            r = (c.crystal_wrong(d.crystal) or far(d.qpts, q, 'q-points')
                 or far(d.weights, w, f'{kw} weights', 1e-9)
                 or far(d.frequencies.to('1/cm').magnitude, c.freq, 'frequencies'))
            if not r and cls is QpointPhononModes:
                e = np.array(c.evec)
                r = far(d.eigenvectors, e[..., 0] + 1j*e[..., 1], 'eigenvectors')
            if r:
                return r
            if d.frequencies.units != (1*d.frequencies.units).to('meV').units:
                return f'frequencies in {d.frequencies.units}'


def dos(h, k, seed, tmp):
    from euphonic.spectra import Spectrum1D, Spectrum1DCollection
    from euphonic.readers.castep import read_phonon_dos_data
    from euphonic import Crystal
    c = Content(h, k, seed)
    out = c.head('dos', h) + [' BEGIN GRADIENTS   n   f   |Grad_q f|']
    for b, f, g in zip(h['blocks'], c.freq, c.grad):
        out.append(c.point(dict(b, dir=0)))
        out += ['%8d%16.6f%24.7f' % (i + 1, x, y) + ' '*20
                for i, (x, y) in enumerate(zip(f, g))]
    kinds = list(dict.fromkeys(KINDS[s] for s in c.sp))
    out += [' END GRADIENTS', ' BEGIN DOS   Freq (cm-1)  g(f)   ' + ' '.join(kinds)]
    n = h['rows']
    x = np.round(-3. + 1.5*np.arange(n), 1)
    y = np.round(c.rng.uniform(0, 9, (n, 1 + len(kinds))), 6)
    out += ['%8.1f' % a + '%11.6f'*len(b) % tuple(b) for a, b in zip(x, y)]
    out.append('  END DOS')
    p = os.path.join(tmp, 'x.phonon_dos')
    with open(p, 'w') as o:
        o.write('\n'.join(out) + '\n')
    wave = 8065.543937349212          # 1/cm of one eV
    inv = [('Total', 0)] + [(a, i + 1) for i, a in enumerate(kinds)]
    col = Spectrum1DCollection.from_castep_phonon_dos(p)
    ys = y*wave/1000
    r = (far(col.x_data.to('meV').magnitude, x/wave*1000, 'bins', 1e-7)
         or far(col.y_data.to('1/meV').magnitude, ys.T, 'DOS', 1e-7))
    if r:
        return r
    lines = [{'label': a, **({} if not i else {'species': a})} for a, i in inv]
    # what all the lines share is not repeated
    got = [{**{k: v for k, v in col.metadata.items() if k != 'line_data'}, **ln}
           for ln in col.metadata.get('line_data', [{}]*len(lines))]
    if got != lines:
        return f'metadata {col.metadata} should be {lines}'
    for a, i in inv:
        s = Spectrum1D.from_castep_phonon_dos(p, **({} if not i else {'element': a}))
        r = (far(s.x_data.to('meV').magnitude, x/wave*1000, 'bins', 1e-7)
             or far(s.y_data.to('1/meV').magnitude, ys[:, i], f'DOS of {a}', 1e-7))
        if r:
            return r
        if s.metadata != lines[i]:
            return f'metadata {s.metadata} should be {lines[i]}'
    fu, cu = (('meV', 'angstrom'), ('1/cm', 'bohr'), ('THz', 'nm'))[k % 3]
    d = read_phonon_dos_data(p, frequencies_unit=fu, cell_vectors_unit=cu)
    cw = {'angstrom': 1., 'bohr': 1/.529177210903, 'nm': .1}[cu]
    fw = {'meV': 1000/wave, '1/cm': 1., 'THz': .0299792458}[fu]
    r = (c.crystal_wrong(Crystal.from_dict(d['crystal']))
         or far(d['qpts'], [QPTS[b['q'] - 1] for b in h['blocks']], 'q-points')
         or far(d['weights'], c.w, 'weights')
         or far(d['frequencies'], np.array(c.freq)*fw, f'frequencies in {fu}', 1e-7)
         or far(d['mode_gradients'], np.array(c.grad)*fw*cw, 'gradients', 1e-7)
         or far(d['dos_bins'], x*fw, f'bins in {fu}', 1e-7)
         or far(d['dos']['Total'], y[:, 0]/fw, f'DOS in 1/{fu}', 1e-7))
    return r


OTHER = [('BEGIN_GENERAL', None), ('NKPTS', np.array([14], '>i4')),
         ('KPOINTS', np.linspace(-1., 1., 12).astype('>f8')),
         ('CELL%NUM_IONS', np.array([77], '>i4')),     # as text elsewhere
         ('FINE_FREQ', np.arange(5.).astype('>f8')),
         ('BORN', np.arange(9.).astype('>f8'))]
VERSIONS = [None, '16.11', '8.0', '17.1', '19.100', '25.12']


def castep_bin(h, k, seed, tmp):
    from euphonic import ForceConstants
    rng = L.rng_for(seed, 'c23bin', str(h))
    c, f = h['crystal'], h['found']
    n, nc, cnt = len(f['r']), c['cells'], c['count']
    cell = rng.normal(size=(3, 3)) + 6*np.eye(3)
    cell2 = cell + .5
    r = rng.uniform(-1.2, 2.2, (n, 3))
    sp = [(s + k) % 4 for s in range(len(cnt))]
    mass = [MASS[s]*1822.888486 for s in sp]
    fc = rng.normal(size=(nc, 3*n, 3*n))
    born = rng.normal(size=9*n)
    eps = rng.normal(size=(3, 3))
    sc = {1: np.eye(3, dtype=int), 2: np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]]),
          3: np.array([[1, 0, 0], [0, 0, -3], [0, 1, 0]]),
          4: np.array([[2, 0, 0], [1, 2, 0], [0, 0, 1]])}[nc]
    orig = rng.integers(-2, 3, (nc, 3))
    # numbered values of the specification -> numbers
    vec = lambda a: {10*(i + 1) + j + 1: a[i, j] for i in range(len(a))
                     for j in range(3)}
    byid = np.array([fc[i, j, l] for i in range(nc) for j in range(3*n)
                     for l in range(3*n)])
    out = []

    def rec(d, pad=0):
        if isinstance(d, str):
            d = d.ljust(pad or 10).encode()
        elif d is None:
            return
        else:
            d = d.tobytes()
        m = np.array([len(d)], '>i4').tobytes()
        out.append(m + d + m)
    F = lambda a: np.array(a, '>f8')
    for e in h['recs']:
        name, v = e['name'], e['v']
        if name == 'OTHER':
            nm, val = OTHER[v - 1]
            if nm == 'CELL%NUM_IONS':
                nm = 'X' + nm
            rec(nm)
            rec(val)
            continue
        rec(name, 30 if 'BEGIN_P' in name else 256 if 'CELL' in name else 10)
        if name == 'BEGIN_PARAMETERS_DUMP':
            rec(VERSIONS[v])
        elif name == 'CELL%REAL_LATTICE':
            m = vec(cell2 if v[1] else cell)
            rec(F([m[i] for i in v[0]]))
            rec('CELL%VOLUME', 256)
            rec(F([1.5]))
        elif name in ('CELL%NUM_SPECIES', 'CELL%NUM_IONS', 'CELL%NUM_IONS_IN_SPECIES'):
            rec(np.array(v, '>i4'))
        elif name == 'CELL%IONIC_POSITIONS':
            m = {**vec(r + (.25 if v[1] else 0.)), 0: (0., 99.)[k % 2]}
            rec(F([m[i] for i in v[0]]))
            rec('CELL%IONIC_VELOCITIES', 256)
            rec(F([0.]*len(v[0])))
        elif name == 'CELL%SPECIES_MASS':
            rec(F(np.array(mass)*(1 + v)))
        elif name == 'CELL%SPECIES_SYMBOL':
            rec(np.array([KINDS[s].ljust(8) for s in sp], 'S8'))
        elif name == 'FORCE_CON':
            m = vec(sc)
            rec(np.array([m[i] for i in v[0]], '>i4'))
            rec(F([byid[i - 1] for i in v[1]]))
            rec(np.array(orig.flatten(), '>i4'))
            rec(np.array([0], '>i4'))
        elif name == 'BORN_CHGS':
            rec(F([born[i - 1] for i in v]))
        elif name == 'DIELECTRIC':
            m = vec(eps)
            rec(F([m[i] for i in v]))
    if h['state'] == 'end':
        rec('END')
        if k % 3 == 0:
            rec('FORCE_CON')
    elif h['state'] == 'marker':
        out[-1] = out[-1][:-1] + bytes([out[-1][-1] ^ 1])
        rec('END')
    p = os.path.join(tmp, 'x.' + ('castep_bin', 'check')[k % 2])
    with open(p, 'wb') as o:
        o.write(b''.join(out))
    try:
        d = ForceConstants.from_castep(p)
    except (RuntimeError, ValueError, EOFError, OSError) as e:
        if h['ok']:
            return f'refused: {e!r}'
        return None
    if not h['ok']:
        return 'not refused'
    w = ForceConstants.from_castep(p)
    cr = d.crystal
    num = lambda a, t: np.array([[t[i] for i in row] for row in a])
    return (far(cr.cell_vectors.to('bohr').magnitude, num(f['cell'], vec(cell)), 'cell')
            or far((cr.atom_r - num(f['r'], vec(r)) + .5) % 1., np.full((n, 3), .5),
                   'positions')
            or (list(cr.atom_type) != [KINDS[sp[s - 1]] for s in f['species']]
                and f'types {cr.atom_type}')
            or far(cr.atom_mass.to('amu').magnitude, [MASS[sp[s - 1]] for s in f['species']],
                   'masses', 1e-7)
            or far(d.force_constants.to('hartree/bohr**2').magnitude,
                   byid[np.array(f['fc']) - 1], 'FC')
            or far(w.force_constants.to('hartree/bohr**2').magnitude,
                   byid[np.array(f['fc']) - 1], 'FC again')
            or far(d.sc_matrix, num(f['sc'], vec(sc)), 'supercell matrix')
            or far(d.cell_origins, orig, 'cell origins')
            or dipoles(d, f, born.reshape(n, 3, 3), num(f['eps'], vec(eps))))


def dipoles(d, f, born, eps):
    if not f['born']:
        return d.born is not None and 'charges that are not in the file'
    return (far(d.born.to('e').magnitude, born, 'charges')
            or far(d.dielectric.to('e**2/(bohr*hartree)').magnitude, eps, 'dielectric'))
