"""C24: Phonopy files."""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
from vf import lattice as L

KINDS = ['Na', 'Cl', 'O']
MASS = [22.989769, 35.453, 15.9994]
BOHR = 0.529177210903
HARTREE = 27.211386245988
# name of length, of force constants; in angstrom, in eV/angstrom^2
UNITS = [('Angstrom', 'eV/Angstrom^2', 1., 1.),
         ('au', 'Ry/au^2', BOHR, HARTREE/2/BOHR**2),
         ('au', 'hartree/au^2', BOHR, HARTREE/BOHR**2),
         ('Angstrom', 'eV/Angstrom.au', 1., 1/BOHR)]
D = 12


def run(ck):
    rng = L.rng_for(ck.seed, 'c24')
    tmp = tempfile.mkdtemp(prefix='c24_')
    try:
        inv = ['Classes', 'Onto', 'Compact', 'PartnerTwice', 'FoundAll', 'Emit']
        for kind, one, cells, num, depth in (
                ('fc', fc, 6, (110, 700), 22), ('fc', fc, 12, (0, 250), 40),
                ('phonon', phonon, 2, (260, 2000), 9)):
            n = ck.pick(*num)
            if not n:
                continue
            t = ck.tlc('Phonopy', constants={'Kind': kind, 'MaxCells': cells},
                       invariants=inv, simulate=max(20, n//3), depth=depth, seed=ck.seed)
            for k, i in enumerate(rng.permutation(len(t.emitted))[:n]):
                h = t.emitted[i]
                what = [h['sys'], h['opt'], [p['q'] for p in h.get('pts', [])]]
                ck.replay(f'{kind} {what}', lambda: one(h, k, ck, tmp),
                          case={'kind': kind, 'h': h})
                if k % 60 == 0:
                    ck.sample([kind, what])
    finally:
        shutil.rmtree(tmp)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def far(q, want, what, tol=1e-9):
    q = np.asarray(q)
    want = np.asarray(want)
    if q.shape != want.shape:
        return f'{what}: shape {q.shape} should be {want.shape}'
    s = np.abs(want).max(initial=0)
    d = np.abs(q - want).max(initial=0)
    if not d <= tol*max(s, 1e-3):
        return f'{what}: off by {d} of {s}'


class Model:
    """The structure behind the files (angstrom, amu, eV/angstrom^2)."""
    def __init__(self, h, k, ck):
        s = h['sys']
        self.rng = r = L.rng_for(ck.seed, 'c24', str(s), str(h['opt']))
        self.super = np.array(s['super'])
        self.pinv, self.m = np.array(s['pinv']), np.array(s['m'])
        names = list(L.GRAMS)
        g = np.array(L.GRAMS[names[int(r.integers(len(names)))]], float)
        self.cell = L.cell_from_gram(g)*float(r.uniform(1.5, 2.5))
        self.raw = np.array(s['r'])/D
        self.kinds = [x - 1 for x in s['kinds']]
        self.n = len(self.raw)
        self.nc = len(s['reps'])
        self.reps = np.array(s['reps'])
        self.u = UNITS[h['opt']['units'] - 1]

    def section(self, name, cell, pos, kinds, red=None):
        out = [name + ':', '  lattice:']
        a = cell/self.u[2]
        out += ['  - [ %21.15f, %21.15f, %21.15f ] # %s' % (*v, c)
                for v, c in zip(a, 'abc')]
        out.append('  points:')
        for i, (x, t) in enumerate(zip(pos, kinds)):
            out += ['  - symbol: %-2s # %d' % (KINDS[t], i + 1),
                    '    coordinates: [ %18.15f, %18.15f, %18.15f ]' % tuple(x),
                    '    mass: %f' % MASS[t]]
            if red is not None:
                out.append('    reduced_to: %d' % red[i])
        return out

    def summary(self, n=None):
        """structure only"""
        out = ['phonopy:', '  version: 2.19.1', '  frequency_unit_conversion_factor: 15.6',
               'physical_unit:', '  atomic_mass: "AMU"', f'  length: "{self.u[0]}"',
               f'  force_constants: "{self.u[1]}"']
        return out + self.section('primitive_cell', self.cell, self.raw[:n],
                                  self.kinds[:n])

    def crystal_wrong(self, c, r):
        return (far(c.cell_vectors.to('angstrom').magnitude, self.cell, 'cell', 1e-8)
                or far(c.atom_r, r, 'positions', 1e-7)
                or (list(c.atom_type) != [KINDS[t] for t in self.kinds]
                    and f'types {c.atom_type}')
                or far(c.atom_mass.to('amu').magnitude,
                       [MASS[t] for t in self.kinds], 'masses', 1e-8))


def fc(h, k, ck, tmp):
    import h5py
    from euphonic import ForceConstants, QpointPhononModes
    from euphonic.readers.phonopy import read_interpolation_data
    m = Model(h, k, ck)
    o = h['opt']
    rng = m.rng
    n, nc = m.n, m.nc
    # values of the numbered force constants, symmetric
    val = np.zeros((n*n*nc + 1, 3, 3))
    seen = set()
    for i in range(n):
        for j in range(n):
            for c in range(nc):
                a, b = (i*n + j)*nc + c + 1, h['partner'][i][j][c]
                if a in seen:
                    continue
                x = np.round(rng.normal(size=(3, 3)), 9)
                if a == b:
                    x = x + x.T
                val[a], val[b] = x, x.T
                seen |= {a, b}
    file_val = np.round(val/m.u[3], 12)
    val = file_val*m.u[3]
    rows = np.array(h['rows'])
    sc = h['sc']
    ns = len(sc)
    reps = [a - 1 for a in h['reps']]
    inv = np.linalg.inv(m.super.astype(float))
    spos = np.array([m.raw[a['atom'] - 1] + a['cell'] for a in sc]) @ inv
    scell = m.super @ m.cell
    ucell = m.pinv.T @ m.cell
    # a bit off, as rounded positions are
    spos += np.round(rng.uniform(-1, 1, spos.shape))*(k % 3 == 0)*1e-8
    out = ['phonopy:', '  version: 2.19.1']
    if o['nac'] != 'new' and o['fac']:
        out.append('  nac_unit_conversion_factor: 14.399652')
    plain = m.u[1].startswith('eV/Angstrom^') and k % 2 == 1
    if not plain:
        out += ['physical_unit:', '  atomic_mass: "AMU"', f'  length: "{m.u[0]}"',
                f'  force_constants: "{m.u[1]}"']

    def mat(name, a, f):
        return [name + ':'] + ['- [ %s ]' % ', '.join(f % x for x in v) for v in a]
    if not (np.array_equal(m.pinv, np.eye(3)) and k % 2):
        out += mat('primitive_matrix', np.linalg.inv(m.pinv), '%18.15f')
    out += mat('supercell_matrix', m.m, '%3d')
    out += m.section('primitive_cell', m.cell, m.raw, m.kinds)
    out += m.section('unit_cell', ucell, (m.raw @ np.linalg.inv(m.pinv.T))[:1],
                     m.kinds[:1])
    out += m.section('supercell', scell, spos, [m.kinds[a['atom'] - 1] for a in sc],
                     [reps[a['atom'] - 1] + 1 for a in sc] if o['reduced'] else None)
    full = o['shape'] == 'full'
    blocks = file_val[rows] if full else file_val[rows[reps]]
    other = np.round(rng.normal(size=blocks.shape), 9)
    kw = {}
    if o['fc'] == 'yaml':
        out += ['force_constants:', '  format: "%s"' % o['shape'],
                '  shape: [ %d, %d ]' % blocks.shape[:2], '  elements:']
        for i, row in enumerate(blocks):
            for j, b in enumerate(row):
                out.append(f'  - # ({i+1}, {j+1})')
                out += ['    - [ %21.15f, %21.15f, %21.15f ]' % tuple(v) for v in b]
    name = 'force' + o['ext'] if o['ext'] else 'FORCE_CONSTANTS'
    if o['fc'] != 'yaml' or o['both']:
        x = other if o['fc'] == 'yaml' else blocks
        if o['fc'] == 'hdf5' or (o['fc'] == 'yaml' and o['ext']):
            with h5py.File(os.path.join(tmp, name), 'w') as f:
                f['force_constants'] = x
        else:
            t = ['%4d' % ns if full and o['fc'] == 'text1' else '%4d %4d' % x.shape[:2]]
            for i, row in enumerate(x):
                for j, b in enumerate(row):
                    t.append('%d %d' % ((i if full else reps[i]) + 1, j + 1))
                    t += ['%22.15f%22.15f%22.15f' % tuple(v) for v in b]
            with open(os.path.join(tmp, name), 'w') as f:
                f.write('\n'.join(t) + '\n')
        kw['fc_name'] = name
        if o['given']:
            kw['fc_format'] = o['given']
    # Born charges
    born = {w: np.round(rng.normal(size=(n, 3, 3)) + np.eye(3), 6) for w in ('summary', 'file')}
    eps = {}
    for w in born:
        a = np.round(rng.normal(size=(3, 3))*.4, 6)
        born[w][-1] -= born[w].sum(axis=0)*(n > 1)     # neutral
        born[w] = np.round(born[w], 6)
        eps[w] = 2*np.eye(3) + np.round(a @ a.T, 6)
    fac = {'summary': 14.399652, 'file': 2.}
    ind = ''
    if o['nac'] != 'none':
        if o['nac'] == 'new':
            out += ['nac:', '  method: gonze']
            if o['fac']:
                out.append('  unit_conversion_factor: 14.399652')
            ind = '  '
        out.append(ind + 'born_effective_charge:')
        for i, b in enumerate(born['summary']):
            out.append(ind + f'- # {i+1}')
            out += [ind + '  - [ %18.15f, %18.15f, %18.15f ]' % tuple(v) for v in b]
        out.append(ind + 'dielectric_constant:')
        out += [ind + '  - [ %18.15f, %18.15f, %18.15f ]' % tuple(v)
                for v in eps['summary']]
    if o['born']:
        t = ['# epsilon and Z*'] if k % 2 else []
        if o['born'] == 'factor':
            t.append('2.000')
        t.append(' '.join('%.6f' % x for x in eps['file'].flatten()))
        t += [' '.join('%.6f' % x for x in b.flatten()) for b in born['file']]
        with open(os.path.join(tmp, 'BORN'), 'w') as f:
            f.write('\n'.join(t) + '\n'*(1 + k % 3))
        kw['born_name'] = 'BORN'
    with open(os.path.join(tmp, 'phonopy.yaml'), 'w') as f:
        f.write('\n'.join(out) + '\n')

    units = [{}, dict(cell_vectors_unit='bohr', force_constants_unit='eV/angstrom**2',
                      atom_mass_unit='electron_mass')][k % 2]
    try:
        d = quiet(read_interpolation_data, path=tmp, **kw, **units)
    except KeyError as e:
        if h['ok']:
            raise
        return None if 'nac_unit_conversion_factor' in str(e) else f'message {e}'
    if not h['ok']:
        return 'no error without a conversion factor'
    want_fc = np.zeros((nc, n, 3, n, 3))
    cells = np.array(d['cell_origins'])
    if cells.shape != (nc, 3):
        return f'cells {cells.tolist()}'
    key = (cells[:, None, :] - m.reps[None]) @ inv
    hit = np.abs(key - np.rint(key)).max(axis=2) < 1e-6
    if not (np.all(hit.sum(axis=0) == 1) and np.all(hit.sum(axis=1) == 1)):
        return f'cells {cells.tolist()} are not those of the supercell'
    found = np.array(h['found'])
    for c in range(nc):
        x = val[found[int(np.argmax(hit[c]))]]     # i, j, 3, 3
        want_fc[c] = x.transpose(0, 2, 1, 3)
    want_fc = want_fc.reshape(nc, 3*n, 3*n)
    w = 1. if units else BOHR**2/HARTREE
    r = far(d['force_constants'], want_fc*w, 'force constants', 1e-8)
    if r:
        return r
    if not np.array_equal(d['sc_matrix'], m.super):
        return f'supercell {d["sc_matrix"].tolist()} should be {m.super.tolist()}'
    pos = m.raw - np.floor(m.raw)
    c = d['crystal']
    r = (far(c['cell_vectors'], m.cell*(1/BOHR if units else 1.), 'cell', 1e-8)
         or far(c['atom_r'], pos, 'positions')
         or far(c['atom_mass'], np.array([MASS[t] for t in m.kinds])
                * (1822.888486209 if units else 1), 'masses', 1e-8))
    if r:
        return r
    polar = h['born'] != 'none'
    if polar != ('born' in d):
        return f'Born charges found: {"born" in d}'
    if polar:
        lb = m.u[2]/BOHR
        fa = m.u[3]*BOHR**2/HARTREE
        e = eps[h['born']]/fac[h['factor']]/(lb**3*fa)
        r = (far(d['born'], born[h['born']], 'Born charges')
             or far(d['dielectric'], e, 'dielectric tensor', 1e-8))
        if r:
            return r
    f = quiet(ForceConstants.from_phonopy, path=tmp, **kw)
    r = m.crystal_wrong(f.crystal, pos)
    if r:
        return r
    if (f.born is not None) != polar:
        return 'Born charges'
    if polar and n == 1:
        return None         # a neutral cell with one atom has no charges
    # frequencies and modes at the wave vectors of the supercell
    qs = np.array([x @ inv.T for x in m.reps])
    qs -= np.rint(qs)
    qs = np.unique(np.round(qs, 12), axis=0)
    mass = np.repeat([MASS[t] for t in m.kinds], 3)
    modes = f.calculate_qpoint_phonon_modes(qs, use_c=False, asr=None, splitting=False)
    scale = HARTREE/1822.888486209/BOHR**2     # of eV/A^2/amu in Ha^2
    freqs, evecs = [], []
    for q in qs:
        dm = np.zeros((3*n, 3*n), complex)
        for i in range(n):
            for j in range(n):
                for c in range(nc):
                    x = val[(i*n + j)*nc + c + 1]
                    ph = q @ (m.reps[c] + m.raw[j] - m.raw[i])
                    dm[3*i:3*i+3, 3*j:3*j+3] += x*np.exp(2j*np.pi*ph)
        dm /= np.sqrt(mass[:, None]*mass)
        e, v = np.linalg.eigh((dm + dm.conj().T)/2)
        freqs.append(np.sign(e)*np.sqrt(np.abs(e)))
        evecs.append(v.T)
    freqs = np.array(freqs)
    # sqrt(eV/(angstrom^2 amu)) in meV
    mev = 1000*HARTREE*np.sqrt(1/HARTREE*BOHR**2/1822.888486209)
    got = modes.frequencies.to('meV').magnitude
    tol = 2e-4 if polar else 1e-6
    r = far(np.sign(got)*got**2, np.sign(freqs)*(freqs*mev)**2,
            f'squares of frequencies at {qs.tolist()}', tol)
    if r:
        return r
    if polar:
        return None
    # the same modes by way of a phonon file
    thz = mev/4.135667696
    out = ['nqpoint: %d' % len(qs), 'phonon:']
    for q, fr, ev in zip(qs, freqs, evecs):
        out += ['- q-position: [ %.12f, %.12f, %.12f ]' % tuple(q), '  band:']
        for a, (x, v) in enumerate(zip(fr*thz, ev)):
            out += [f'  - # {a+1}', '    frequency: %.12f' % x, '    eigenvector:']
            for b in range(n):
                out.append(f'    - # atom {b+1}')
                out += ['      - [ %.14f, %.14f ]' % (z.real, z.imag)
                        for z in v[3*b:3*b+3]]
    with open(os.path.join(tmp, 'qpoints.yaml'), 'w') as g:
        g.write('\n'.join(out) + '\n')
    back = quiet(QpointPhononModes.from_phonopy, path=tmp, phonon_name='qpoints.yaml')
    r = far(back.frequencies.to('meV').magnitude, freqs*mev, 'frequencies read', 1e-8)
    if r:
        return r
    a = modes.eigenvectors.reshape(len(qs), 3*n, 3*n)
    b = back.eigenvectors.reshape(a.shape)
    # where the atoms are moved by a cell, modes get a phase
    b = b*np.exp(-2j*np.pi*np.repeat(qs @ np.floor(m.raw).T, 3, axis=1))[:, None, :]
    for i in range(len(qs)):
        d2 = np.abs(np.subtract.outer(freqs[i], freqs[i])) + np.eye(3*n)
        one = d2.min(axis=1) > 1e-3
        over = np.abs(np.einsum('ij,ij->i', a[i].conj(), b[i]))[one]
        if not np.abs(over - 1).max(initial=0) < 1e-4:
            return f'modes at {qs[i]}: overlap {over} with those of the phonon file'


def phonon(h, k, ck, tmp):
    import h5py
    from euphonic import QpointFrequencies, QpointPhononModes
    m = Model(h, k, ck)
    o, want = h['opt'], h['found']
    rng = m.rng
    n = m.n
    q = np.array([p['q'] for p in h['pts']])/D
    nq = len(q)
    freq = np.round(np.sort(rng.normal(5., 5., (nq, 3*n))), 10)
    ev = np.round(rng.uniform(-1, 1, (nq, 3*n, n, 3, 2)), 14)     # q, mode, atom
    z = ev[..., 0] + 1j*ev[..., 1]
    name = o['type'] + ['.yaml', '.yml'][k % 2] if o['form'] == 'yaml' \
        else o['type'] + ['.hdf5', '.h5', '.hd5'][k % 3]
    kw = {'phonon_name': name}
    if o['given']:
        kw = {'phonon_name': 'other.txt', 'phonon_format': o['form']}
    p = os.path.join(tmp, kw['phonon_name'])
    with open(os.path.join(tmp, 'phonopy.yaml'), 'w') as f:
        f.write('\n'.join(m.summary()) + '\n')
    if o['strange']:
        x = Model(h, k, ck)
        x.raw = np.concatenate([x.raw, [[.03, .01, .02]]])
        x.kinds = x.kinds + [0]
        with open(os.path.join(tmp, 'phonopy.yaml'), 'w') as f:
            f.write('\n'.join(x.summary()) + '\n')
    if o['form'] == 'yaml':
        out = ['nqpoint: %d' % nq, 'natom:   %d' % n]
        if want['inside']:
            mm = Model(h, k, ck)
            mm.u = UNITS[0]
            out += [s[2:] for s in mm.section('x', m.cell, m.raw, m.kinds)[1:]]
        out.append('phonon:')
        for i in range(nq):
            out.append('- q-position: [ %.12f, %.12f, %.12f ]' % tuple(q[i]))
            if o['type'] == 'mesh':
                out.append('  weight: %d' % h['pts'][i]['w'])
            if o['type'] == 'band':
                out.append('  distance: %.6f' % i)
            out.append('  band:')
            for a in range(3*n):
                out += [f'  - # {a+1}', '    frequency: %.10f' % freq[i, a]]
                if o['evecs']:
                    out.append('    eigenvector:')
                    for b in range(n):
                        out.append(f'    - # atom {b+1}')
                        out += ['      - [ %.14f, %.14f ]' % tuple(x)
                                for x in ev[i, a, b]]
        with open(p, 'w') as f:
            f.write('\n'.join(out) + '\n')
    else:
        col = z.reshape(nq, 3*n, 3*n).transpose(0, 2, 1)     # modes are columns
        with h5py.File(p, 'w') as f:
            if o['type'] == 'band':
                s = o['segs']
                f['path'] = q.reshape(s, 2, 3)
                f['frequency'] = freq.reshape(s, 2, 3*n)
                f['distance'] = np.zeros((s, 2))
                if o['evecs']:
                    f['eigenvector'] = col.reshape(s, 2, 3*n, 3*n)
            else:
                f['qpoint'] = q
                f['frequency'] = freq
                if o['type'] == 'mesh':
                    f['weight'] = np.array([x['w'] for x in h['pts']])
                if o['evecs']:
                    f['eigenvector'] = col
    w = [a/b for a, b in want['w']]
    for cls, ok in ((QpointPhononModes, want['modes']), (QpointFrequencies, want['freqs'])):
        try:
            d = quiet(cls.from_phonopy, path=tmp, **kw)
        except (RuntimeError, ValueError) as e:
            if ok or 'reshape' in str(e):
                raise
            continue
        if not ok:
            return f'{cls.__name__}: no error'
        r = (m.crystal_wrong(d.crystal, m.raw) or far(d.qpts, q, 'q-points')
             or far(d.weights, w, 'weights')
             or far(d.frequencies.to('THz').magnitude, freq, 'frequencies'))
        if r:
            return f'{cls.__name__}: {r}'
        if cls is QpointFrequencies:
            continue
        ph = np.array([[a/b for a, b in v] for v in want['phase']])

        def wrong(z):
            x = d.eigenvectors/(z*np.exp(2j*np.pi*ph)[:, None, :, None])
            x = x/x[:, :, :1, :1]
            if not np.abs(x - 1).max() < 1e-6:
                return f'eigenvectors: ratio off by {np.abs(x - 1).max()}'
            return far(np.abs(d.eigenvectors), np.abs(z), 'size of eigenvectors')
        r = wrong(z)
        if r and o['form'] == 'hdf5' and o['type'] != 'band':
            if not wrong(z.reshape(nq, 3*n, 3*n).transpose(0, 2, 1).reshape(z.shape)):
                ck.violation(f'{o["type"]}.hdf5: rows and columns of the eigenvectors '
                             'are exchanged', key='hdf5-eigenvectors')
                r = None
        if r:
            return r
