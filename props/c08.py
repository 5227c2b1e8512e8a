"""C08: results depend on current data only, not on earlier calls."""
import numpy as np
from vf import lattice as L, polar
from c04 import covariant

Q = np.array([[0, 0, 0], [.25, 0, .5], [0, 0, 0], [.1, .2, .3], [-.4, .15, 0]])
UN = {'fc': ['eV/angstrom**2', 'mRy/bohr**2', 'hartree/bohr**2'],
      'born': ['coulomb', 'e'],
      'diel': ['e**2/(angstrom*eV)', 'e**2/(bohr*hartree)'],
      'cell': ['angstrom', 'nm', 'bohr'], 'mass': ['m_e', 'kg', 'amu']}


class World:
    """concrete values of the versions used by the specification"""

    def __init__(self, seed, tag):
        from euphonic import ureg
        self.case, fc, rng = polar.make(seed, tag, n_atoms=2)
        c = self.case
        # nearly obey the sum rule, so that the correction applies
        self.fcs = []
        for i in range(3):
            f = covariant(rng, c['orig'], c['sc'], 2,
                          np.zeros((3, 3), int))*.1
            f[0] += np.diag([.01 + .005*i]*6)
            self.fcs.append(f)
        self.born = [polar.born_set(rng, 2) for _ in range(3)]
        self.diel = [polar.dielectric_set(rng) + i*np.eye(3)
                     for i in range(3)]
        self.fcq = [f*ureg('hartree/bohr**2') for f in self.fcs]
        self.bq = [b*ureg('e') for b in self.born]
        self.dq = [d*ureg('e**2/(bohr*hartree)') for d in self.diel]
        self.memo = {}

    def masses(self, v):
        from euphonic import ureg
        return np.array([[28.0855, 15.9994], [28.0855, 18.],
                         [40., 16.5]])[v - 1]*ureg('amu')

    def crystal(self, v, mass=1):
        # version 2: other vectors, version 3: other positions as well
        cr = L.make_crystal(self.case, self.masses(mass).magnitude)
        if v > 1:
            cr.cell_vectors = np.array(
                [[.9, .05, .3], [-.2, 1.1, 0], [.1, .15, 1.2]]
                ) @ cr.cell_vectors
        if v > 2:
            cr.atom_r = cr.atom_r + [[0, 0, 0], [.13, .02, -.25]]
        return cr

    def obj(self, fc=1, born=1, diel=1, cr=1, mass=1):
        from euphonic import ForceConstants
        cr = self.crystal(cr, mass)
        return ForceConstants(
            cr, self.fcq[fc - 1].copy(), np.array(self.case['sc']),
            np.array(self.case['orig']),
            self.bq[born - 1].copy() if born else None,
            self.dq[diel - 1].copy() if born else None)

    def expect(self, want):
        k = repr(want)
        if k not in self.memo:
            d = want['dip']
            o = self.obj(want['fc'], *(d[:2] if d else (0, 0)), want['cr'],
                         want['mass'])
            self.memo[k] = self.calc(o, want['asr'], bool(d),
                                     d[2] if d else 10, False)
        return self.memo[k]

    def calc(self, o, asr, dip, eta, use_c, grad=False, threads=2):
        kw = dict(asr=None if asr == 'none' else asr, dipole=dip,
                  use_c=use_c, dipole_parameter=eta/10)
        if use_c:
            kw['n_threads'] = threads
        if grad:
            m, g = o.calculate_qpoint_phonon_modes(
                Q, return_mode_gradients=True, **kw)
            g = g.to('hartree*bohr').magnitude
        else:
            m = o.calculate_qpoint_phonon_modes(Q, **kw)
            g = None
        return L.reconstruct(m, L.masses_me(o.crystal)), g


def visible(o):
    out = {'fc': o.force_constants.to('hartree/bohr**2').magnitude,
           'sc': np.array(o.sc_matrix), 'orig': np.array(o.cell_origins),
           'cell': o.crystal.cell_vectors.to('bohr').magnitude,
           'r': np.array(o.crystal.atom_r),
           'mass': o.crystal.atom_mass.to('amu').magnitude}
    if o.born is not None:
        out['born'] = o.born.to('e').magnitude
        out['diel'] = o.dielectric.to('e**2/(bohr*hartree)').magnitude
    u = (o.force_constants_unit, o.born_unit, o.dielectric_unit,
         o.crystal.cell_vectors_unit, o.crystal.atom_mass_unit,
         str(o.force_constants.units), list(o.crystal.atom_type),
         o.n_cells_in_sc)
    return out, u


def replay(w, hist, n):
    from euphonic import ForceConstants, ureg
    o = w.obj(1, hist[0]['born'], 1)
    cnt = 0
    mass = 1
    for step, h in enumerate(hist[1:]):
        op = h['op']
        if op == 'fc':
            q = w.fcq[h['v'] - 1]
            o.force_constants = q.to(UN['fc'][(n + step) % 3])
        elif op == 'born':
            o.born = w.bq[h['v'] - 1].to(UN['born'][(n + step) % 2])
        elif op == 'diel':
            o.dielectric = w.dq[h['v'] - 1].to(UN['diel'][(n + step) % 2])
        elif op == 'cell' and h['how'] == 'replace':
            o.crystal = w.crystal(h['v'], mass)
        elif op == 'mass':
            mass = h['v']
            o.crystal.atom_mass = w.masses(mass).to(
                UN['mass'][(n + step) % 3])
        elif op == 'cell':
            new = w.crystal(h['v'])
            o.crystal.cell_vectors = new.cell_vectors.to(
                UN['cell'][(n + step) % 3])
            o.crystal.atom_r[:] = new.atom_r
        elif op == 'unit':
            cnt += 1
            u = UN[h['what']][(n + cnt) % len(UN[h['what']])]
            if h['what'] == 'fc':
                o.force_constants_unit = u
            elif h['what'] == 'born':
                o.born_unit = u
            elif h['what'] == 'diel':
                o.dielectric_unit = u
            elif h['what'] == 'cell':
                o.crystal.cell_vectors_unit = u
            else:
                o.crystal.atom_mass_unit = u
        elif op == 'copy':
            o = ForceConstants.from_dict(o.to_dict())
        else:
            a, ua = visible(o)
            d, g = w.calc(o, h['asr'], h['dip'], h['eta'],
                          use_c=bool((n + step) % 2), grad=h['grad'])
            x, _ = w.expect(h['want'])
            sc = np.abs(x).max()
            if not np.abs(d - x).max() < 1e-8*sc:
                return (f'step {step + 1}: result is not that of a fresh '
                        f'object ({np.abs(d - x).max()/sc:.3g})')
            b, ub = visible(o)
            if ua != ub:
                return f'step {step + 1}: calculation changed {ua} to {ub}'
            for k in a:
                if not np.array_equal(a[k], b[k]):
                    return f'step {step + 1}: calculation changed {k}'
    return None


def run(ck):
    K = dict(Keep=set(), NV=2, Etas={10, 7}, Depth=3, EmitOn=False, Sim=True)
    # every reachable cache state, histories of any length
    ck.tlc('Cache', constants={**K, 'NV': 3, 'Depth': 10**6},
           invariants=['Fresh'], view='NoHist')
    for keep in ({'asr'}, {'ewald'}, {'cell'}, {'images'},
                 {'mass'}):
        ck.tlc('Cache', constants={**K, 'Keep': keep, 'Depth': 10**6},
               invariants=['Fresh'], view='NoHist', expect_violation=True)
    # all histories of 3 (thorough 4) steps
    d = 3
    r = ck.tlc('Cache', constants={**K, 'EmitOn': True, 'Sim': False,
                                   'Depth': d},
               invariants=['Fresh', 'Emit'])
    hs = [e['hist'] for e in r.emitted if e['hist'][-1]['op'] == 'calc']
    hs.sort(key=repr)
    # histories which replace data between calculations first
    rng = L.rng_for(ck.seed, 'c08')
    rng.shuffle(hs)

    def interesting(h):
        ops = [x['op'] for x in h]
        c = [i for i, x in enumerate(ops) if x == 'calc']
        s = [i for i, x in enumerate(ops) if x in ('fc', 'born', 'diel', 'cell', 'mass')]
        return bool(c and s and any(c[0] < x for x in s))
    good = [h for h in hs if interesting(h)]
    rest = [h for h in hs if not interesting(h)]
    hs = good[:ck.pick(500, 10**6)] + rest[:ck.pick(150, 2000)]
    r = ck.tlc('Cache', constants={**K, 'EmitOn': True, 'Depth': 9, 'NV': 3},
               invariants=['Fresh', 'Emit'], simulate=ck.pick(150, 3000),
               depth=11, seed=ck.seed)
    long = [e['hist'] for e in r.emitted]
    long.sort(key=repr)
    long = [long[i] for i in
            rng.permutation(len(long))[:ck.pick(200, 4000)]]
    ws = [World(ck.seed, f'c08{i}') for i in range(ck.pick(2, 4))]
    for n, h in enumerate(hs + long):
        w = ws[n % len(ws)]
        ck.replay(f'history {[{k: v for k, v in x.items() if k != "want"} for x in h]}',
                  lambda: replay(w, h, n), case=h)
        if n in (0, len(hs)):
            ck.sample(h)
    ck.notes['short_histories'] = len(hs)
    ck.notes['long_histories'] = len(long)
    ck.assumptions += ['force constants, Born charges and the dielectric '
                       'tensor are replaced through their setters']
