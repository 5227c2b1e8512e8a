"""C06: dipole correction is consistent with the force constants it splits."""
import numpy as np
from vf import lattice as L, polar

UN = [('hartree/bohr**2', 'bohr', 'e', 'e**2/(bohr*hartree)'),
      ('eV/angstrom**2', 'angstrom', 'e', 'e**2/(angstrom*eV)'),
      ('mRy/bohr**2', 'nm', 'coulomb', 'e**2/(nm*hartree)'),
      ('eV/bohr**2', 'angstrom', 'millie', 'e**2/(angstrom*Ry)')]
MASSES = [28.0855, 15.9994, 6.94]


def gen(ck, count):
    rng = L.rng_for(ck.seed, 'c06')
    cases = L.make_cases(ck.seed, 'c06', count, max_atoms=3, max_cells=6,
                         ms=(4,), nq=3)
    for c in cases:
        n, nc = len(c['r']), len(c['orig'])
        det = abs(int(round(np.linalg.det(np.array(c['sc'])))))
        c['tot'] = rng.integers(-5, 6, size=nc).tolist()
        c['salt'] = int(rng.integers(11))
        # a commensurate wave vector, times det
        adj = np.rint(np.linalg.inv(np.array(c['sc']))*det).astype(int)
        c['q'] = [int(x) for x in adj @ rng.integers(-1, 2, size=3)]
        assert not (np.array(c['sc']) @ c['q'] % det).any()
        args = []
        for op in rng.permutation(['move', 'shift', 'cells']):
            a = {'op': str(op), 'atom': 1 + int(rng.integers(n)),
                 'vec': [int(x) for x in rng.integers(-1, 2, size=3)],
                 'perm': [1] + [2 + int(x) for x in rng.permutation(nc - 1)],
                 'ts': [[0, 0, 0]] + [[int(x) for x in rng.integers(
                     -1, 2, size=3)] for _ in range(nc - 1)]}
            args.append(a)
        c['args'] = args[:3]
    return cases


def run(ck):
    from euphonic import ForceConstants, ureg
    cases = gen(ck, ck.pick(40, 240))
    fold = ck.tlc('Fold', cases=cases, invariants=['Restored', 'Count', 'Emit'])
    comm = {e['id']: e for e in fold.emitted}
    for c in cases:
        c['m'], c['qs'] = comm[c['id']]['m'], comm[c['id']]['qs']
    ip = ck.tlc('Interp', cases=cases, invariants=[
        'ImagesExist', 'Hermitian', 'GammaSum', 'Emit'])
    ip = {e['id']: e for e in ip.emitted}
    ga = ck.tlc('Gauge', cases=cases, constants=dict(Depth=3),
                invariants=['GaugeLaw', 'Exchange', 'Emit'])
    ga = {e['id']: e for e in ga.emitted}
    assert len(ip) == len(ga) == len(cases)
    # is the final description within reach of the image search?
    far = ck.tlc('Interp', cases=[dict(c, fc=ga[c['id']]['fc'], m=1,
                                       qs=[[0, 0, 0]], r=ga[c['id']]['r'],
                                       orig=ga[c['id']]['orig'])
                                  for c in cases], invariants=['Emit'])
    far = {e['id']: e['amb'] for e in far.emitted}
    for c in cases:
        k = c['id']
        if ip[k]['amb']:
            continue
        rng = L.rng_for(ck.seed, 'c06r', k)
        n = len(c['r'])
        bz, ez = polar.born_set(rng, n), polar.dielectric_set(rng)
        if n == 1:      # a neutral cell with one atom has no charges
            bz = bz*0
        if n == 3:
            # row sums of a three atom dipole part need not be symmetric for
            # arbitrary charges; scalar charges on all but one axis keep them
            bz = np.array([np.eye(3)*z for z in (2., -3., 1.)])
        fu, cu, bu, du = UN[k % len(UN)]
        if bu == 'millie':
            bu, bz = 'e', bz*0.5
        masses = np.array(MASSES)[rng.permutation(3)[:n]]

        def obj(case, fu=fu, cu=cu, bu=bu, du=du, total=False):
            born = (bz*ureg('e')).to(bu)
            diel = (ez*ureg('e**2/(bohr*hartree)')).to(du)
            cr = L.make_crystal(case, masses, cell_unit=cu)
            f = (np.array(case['fc'], dtype=float)*0.1
                 * ureg('hartree/bohr**2')).to(fu)
            if total:
                return ForceConstants.from_total_fc_with_dipole(
                    cr, f, np.array(case['sc']), np.array(case['orig']),
                    born, diel)
            return ForceConstants(cr, f, np.array(case['sc']),
                                  np.array(case['orig']), born=born,
                                  dielectric=diel)
        use_c = bool(k % 2)
        qc = np.array(c['qs'])/c['m']
        qg = np.vstack([qc, rng.uniform(-.6, .6, size=(3, 3)),
                        [[0.5, -0.5, 0.5], [0.25, 0, 0]]])

        def D(o, q, **kw):
            m = o.calculate_qpoint_phonon_modes(q, splitting=False,
                                                use_c=use_c, **kw)
            return L.reconstruct(m, L.masses_me(o.crystal))

        def total():
            o = obj(c, total=True)
            if str(o.force_constants.units) != str(ureg(fu).units):
                return f'units {o.force_constants.units}'
            d = D(o, qc)
            x = np.array([L.dm_from_coeffs(e, ip[k]['den'], c['m'])
                          for e in ip[k]['dm']])*0.1
            dip = D(obj(c), qc) - x
            sc = max(np.abs(x).max(), np.abs(dip).max())
            diff = d - x
            # only a constant on-site term may remain
            k0 = diff[0].copy()
            for i in range(n):
                for j in range(n):
                    b = k0[3*i:3*i+3, 3*j:3*j+3]
                    if i != j and np.abs(b).max() > 1e-9*sc:
                        return f'pair term differs by {np.abs(b).max()/sc:.3g}'
            if np.abs(k0.imag).max() > 1e-9*sc:
                return 'on-site term not real'
            if np.abs(diff - k0).max() > 1e-9*sc:
                return ('total force constants not restored: '
                        f'{np.abs(diff - k0).max()/sc:.3g}')
            # the dipole part is acoustic in the supercell as in the cell
            if np.abs(k0).max() > 1e-7*sc:
                return f'on-site term {np.abs(k0).max()/sc:.3g}'
        lab = f'{c["name"]} sc={c["sc"]} r={c["r"]}/{c["rden"]} use_c={use_c}'
        ck.replay('split and restore ' + lab + f' {UN[k % len(UN)]}', total,
                  case=c)

        def ewald():
            o = obj(c)
            d = [D(o, qg, dipole_parameter=p) for p in (1., .55, 1.6)]
            sc = np.abs(d[0]).max()
            for x, p in zip(d[1:], (.55, 1.6)):
                if np.abs(x - d[0]).max() > 1e-9*sc:
                    return (f'depends on the Ewald parameter {p}: '
                            f'{np.abs(x - d[0]).max()/sc:.3g}')
        ck.replay('Ewald parameter ' + lab, ewald, case=c)

        def units():
            a = D(obj(c), qg)
            b = D(obj(c, *UN[0]), qg)
            sc = np.abs(a).max()
            if np.abs(a - b).max() > 1e-9*sc:
                return f'depends on units {UN[k % len(UN)]}'
        ck.replay('units ' + lab, units, case=c)

        def gauge():
            g = ga[k]
            c2 = dict(c, fc=g['fc'], r=g['r'], orig=g['orig'])
            ph = np.exp(2j*np.pi*(qg @ np.array(g['t']).T))
            ph = np.repeat(ph, 3, axis=1)
            for tot in (False, True):
                a, b = D(obj(c, total=tot), qg), D(obj(c2, total=tot), qg)
                sc = np.abs(a).max()
                b = b*ph.conj()[:, :, None]*ph[:, None, :]
                if np.abs(a - b).max() > 1e-8*sc:
                    return (f'description of the crystal matters (total='
                            f'{tot}): {np.abs(a - b).max()/sc:.3g}')
        if not far[k]:
            ck.replay(f'gauge {ga[k]["hist"]} ' + lab, gauge,
                      case=c)
        if k < 3:
            ck.sample({'sc': c['sc'], 'commensurate': c['qs'],
                       'walk': ga[k]['hist'], 't': ga[k]['t']})
    ck.assumptions += [
        'charge neutral Born charges (arbitrary tensors for two atoms, '
        'isotropic for three)', 'no LO-TO term (see C05)',
        'Ewald parameters 0.55 to 1.6']
