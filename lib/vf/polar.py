"""Polar (and non-polar) seeded models used by the engine-level checks."""
import numpy as np
from . import lattice as L


def born_set(rng, n, unit=1.0):
    """integer Born charges obeying charge neutrality, non-symmetric"""
    z = rng.integers(-3, 4, size=(n, 3, 3)).astype(float)
    z += np.eye(3)*np.array([3 if i % 2 == 0 else -3 for i in range(n)])[
        :, None, None]
    if n > 1:
        z[-1] = -z[:-1].sum(axis=0)
    return z


def dielectric_set(rng):
    a = rng.integers(-1, 2, size=(3, 3)).astype(float)
    return a @ a.T + np.diag(rng.integers(2, 6, size=3)).astype(float)


def make(seed, tag, n_atoms=2, cells=(2, 4), polar=True, gnames=None,
         mag=6, **kw):
    """returns (case, fc, rng): one seeded FC with n_atoms"""
    from euphonic import ureg
    rng = L.rng_for(seed, 'polar', tag)
    cand = [c for c in L.make_cases(int(rng.integers(1 << 30)), tag, 60,
                                    max_atoms=n_atoms)
            if len(c['r']) == n_atoms and len(c['orig']) in cells
            and (gnames is None or c['name'] in gnames)]
    c = cand[int(rng.integers(len(cand)))]
    masses = np.array([28.0855, 15.9994, 6.94])[:n_atoms]
    if polar:
        born = born_set(rng, n_atoms)*ureg('e')
        diel = dielectric_set(rng)*ureg('e**2/(bohr*hartree)')
    else:
        born = diel = None
    fc = L.make_fc(c, masses, born=born, dielectric=diel, fc_scale=0.1, **kw)
    return c, fc, rng
