"""C02: every interpolation path and input layout gives the same answer."""
import glob
import importlib.util
import itertools
import os
import subprocess
import sys
import sysconfig
import numpy as np
from vf import lattice as L, polar, stage

VECS = [[0, 0, 0], [5, 0, -5], [1, 2, 0], [1, 7, 5], [2, -1, 1]]
M = 5
INV = ['Correct', 'NoDoubleWork', 'ReducedSmaller', 'Emit']


def load_variant(opt):
    """the same C sources at another optimisation level: exposes data races
    which the optimiser happens to hide"""
    base = stage.build_c()
    so = base.replace('/cext/', f'/cext{opt}/')
    os.makedirs(os.path.dirname(so), exist_ok=True)
    if not os.path.exists(so):
        for f in glob.glob(os.path.dirname(so) + '/*.so'):
            os.unlink(f)
        cmd = ['gcc', '-shared', '-fPIC', f'-{opt}', '-fwrapv', '-fopenmp', '-w',
               '-I' + sysconfig.get_paths()['include'],
               '-I' + np.get_include(), '-I' + os.path.join(stage.REPO, 'c'),
               *sorted(glob.glob(os.path.join(stage.REPO, 'c', '*.c'))),
               '-o', so + '.tmp', '-lm']
        subprocess.run(cmd, check=True)
        os.replace(so + '.tmp', so)
    spec = importlib.util.spec_from_file_location('euphonic._euphonic', so)
    ext = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(ext)
    return ext


def use_ext(ext):
    import euphonic
    sys.modules['euphonic._euphonic'] = ext
    euphonic._euphonic = ext


class Ref:
    """results of each abstract token <<class, direction>>, each from its own
    single-purpose call of the Python implementation"""

    def __init__(self, fc, opts, m=M):
        self.fc = fc
        self.m = m
        self.opts = opts
        self.tab = {}
        self.masses = L.masses_me(fc.crystal)

    def get(self, token):
        key = (tuple(token[0]), tuple(token[1]))
        if key not in self.tab:
            cls, d = np.array(token[0])/self.m, np.array(token[1])/self.m
            if np.any(d != 0):
                q = np.array([cls, cls + d])
            else:
                q = np.array([cls])
            m, g = self.fc.calculate_qpoint_phonon_modes(
                q, use_c=False, return_mode_gradients=True, **self.opts)
            with np.errstate(all='ignore'):
                self.tab[key] = (
                    L.freqs_hartree(m)[0], L.reconstruct(m, self.masses)[0],
                    (g.magnitude*m.frequencies.magnitude[:, :, None])[0])
        return self.tab[key]


def compare(ref, tokens, modes, grads, freqs_only, unit_tol=1e-8):
    w = L.freqs_hartree(modes)
    sc = max(max(np.abs(ref.get(t)[0]).max()**2 for t in tokens), 1e-12)
    rec = None if freqs_only else L.reconstruct(modes, ref.masses)
    for k, t in enumerate(tokens):
        fw, fr, fg = ref.get(t)
        d = np.abs(np.sign(w[k])*w[k]**2 - np.sign(fw)*fw**2).max()
        if not d < 1e-9*sc:
            return f'frequencies at position {k} ({t}) differ by {d/sc:.3g}'
        if rec is not None:
            s = np.abs(fr).max()
            d = np.abs(rec[k] - fr).max()
            if not d < unit_tol*s:
                return f'eigenvectors at position {k} ({t}) differ: {d/s:.3g}'
        if grads is not None:
            gw = grads.magnitude[k]*modes.frequencies.magnitude[k][:, None]
            # only well separated modes have a basis independent gradient
            fs = np.sign(fw)*fw**2
            gap = np.full(len(fw), np.inf)
            gap[1:] = np.minimum(gap[1:], np.diff(fs))
            gap[:-1] = np.minimum(gap[:-1], np.diff(fs))
            ok = (gap > 1e-4*sc) & (fw**2 > 1e-4*sc)
            # scale: w**2 times one length unit (the gradient may vanish)
            s = max(np.abs(fg).max(), np.abs(modes.frequencies.magnitude).max()**2)
            if ok.any() and not np.abs(gw - fg)[ok].max() < 1e-6*s:
                return f'mode gradients at position {k} ({t}) differ'
    return None


def run(ck):
    K = dict(M=M, NT=2, SharedSearch=False, MergeGamma=False, FromFile=False,
             Vecs=VECS, MaxLen=3, EmitOn=False)
    ck.tlc('Engine', constants={**K, 'NT': ck.pick(2, 3)}, invariants=INV)
    # teeth: the repaired race and a wrong reduction are both rejected
    ck.tlc('Engine', constants={**K, 'SharedSearch': True}, invariants=INV,
           expect_violation=True)
    ck.tlc('Engine', constants={**K, 'MergeGamma': True}, invariants=INV,
           expect_violation=True)
    # behaviours: all lists up to length 2 exhaustively, and seeded longer ones
    rng = L.rng_for(ck.seed, 'c02')
    lists = [list(map(list, x)) for n in (1, 2)
             for x in itertools.product(VECS, repeat=n)]
    for n, cnt in ((3, ck.pick(25, 125)), (4, ck.pick(20, 200)),
                   (7, ck.pick(12, 100)), (13, ck.pick(8, 60))):
        for _ in range(cnt):
            lists.append([VECS[int(i)] for i in
                          rng.choice(5, p=[.3, .15, .2, .2, .15], size=n)])
    for _ in range(ck.pick(2, 10)):
        # many gammas, each approached from its own direction
        big = []
        for _ in range(60):
            big += [[0, 0, 0], [int(x) for x in rng.integers(-9, 10, size=3)]]
        lists.append(big)
    r = ck.tlc('Engine', constants={**K, 'FromFile': True, 'EmitOn': True},
               spec='JumpSpec', invariants=['Correct', 'Emit'], cases=lists)
    behaviours = sorted(r.emitted, key=lambda e: (len(e['qs']), e['qs'],
                                                  e['split']))
    rng.shuffle(behaviours)
    models = [polar.make(ck.seed, 'a', n_atoms=2)[1],
              polar.make(ck.seed, 'b', n_atoms=2, polar=False)[1]]
    if not ck.quick:
        models += [polar.make(ck.seed, f't{i}', n_atoms=1 + i % 2,
                              polar=i % 3 > 0)[1] for i in range(4)]
    optsets = [dict(), dict(asr='reciprocal'), dict(asr='realspace'),
               dict(dipole_parameter=0.7)]
    refs = {}
    fast, slow = sys.modules['euphonic._euphonic'], load_variant('O0')
    try:
        for n, b in enumerate(behaviours):
            mi = n % len(models) if len(b['qs']) < 60 else 0
            fc = models[mi]
            oi = (n//len(models)) % len(optsets)
            opts = dict(optsets[oi], splitting=b['split'])
            if fc.born is None and opts.pop('dipole_parameter', None):
                pass
            key = (mi, oi, b['split'])
            ref = refs.setdefault(key, Ref(fc, opts))
            # without born charges there is no splitting
            tokens = b['res'] if fc.born is not None else [
                [t[0], [0, 0, 0]] for t in b['res']]
            q = np.array(b['qs'])/M
            mode = n % 3
            big = len(q) > 60
            for use_c, reduce, nt in (
                    [(True, True, 8), (True, False, 3)] if big else
                    [(True, True, 1 + n % 4), (True, False, 2),
                     (False, bool(n % 2), None)]):
                for rep in range(ck.pick(6, 25) if big else 1):
                    use_ext(slow if (n + rep) % 2 or big and rep % 4
                            else fast)
                    def one():
                        qq = q.copy()
                        kw = dict(opts, use_c=use_c, reduce_qpts=reduce,
                                  n_threads=nt)
                        g = None
                        if mode == 0:
                            o = fc.calculate_qpoint_phonon_modes(qq, **kw)
                        elif mode == 1:
                            o = fc.calculate_qpoint_frequencies(qq, **kw)
                        else:
                            f = (fc.calculate_qpoint_frequencies
                                 if n % 2 else
                                 fc.calculate_qpoint_phonon_modes)
                            o, g = f(qq, return_mode_gradients=True, **kw)
                            if g.shape != o.frequencies.shape + (3,):
                                return f'gradient shape {g.shape}'
                        if not np.array_equal(qq, q):
                            return 'input q-points were modified'
                        if not np.array_equal(o.qpts, q):
                            return 'q-points changed'
                        return compare(ref, tokens, o, g,
                                       not hasattr(o, 'eigenvectors'))
                    ck.replay(f'list {b["qs"][:6]}.. split={b["split"]} '
                              f'opts={opts} use_c={use_c} reduce={reduce} '
                              f'threads={nt} mode={mode}', one,
                              case={'qs': b['qs'], 'split': b['split'],
                                    'expected': b['res']})
            if n < 4:
                ck.sample({'qs': b['qs'][:6], 'split': b['split'],
                           'expected': b['res'][:6]})
        close_points(ck, models, K)
        layouts(ck, fast)
        env_threads(ck, models, behaviours)
    finally:
        use_ext(fast)
    ck.assumptions += [
        'force constants obey the exchange symmetry',
        'thread schedules of the real OpenMP runtime are sampled (repeated '
        'runs, -O2 and -O0 builds); the model covers all interleavings of 2 '
        '(thorough: 3) threads for all lists of up to 3 q-points']


def close_points(ck, models, K):
    """q-points that are almost, but not quite, the same (up to translation)"""
    for m in (300, 10**5, 10**7):
        near = [[0, 0, 0], [1, 0, 0], [1, 0, 1], [m//4, 1, 0], [m//4 + 1, 1, 0],
                [m, 0, -m], [m + 1, 0, m], [m//4 - m, 1, m], [-1, 0, 0]]
        rng = L.rng_for(ck.seed, 'c02near', m)
        lists = [[near[int(i)] for i in rng.permutation(len(near))[:k]]
                 for k in (2, 3, 4, 9, 9) for _ in range(ck.pick(2, 10))]
        r = ck.tlc('Engine', constants={**K, 'M': m, 'FromFile': True,
                                        'EmitOn': True},
                   spec='JumpSpec', invariants=['Correct', 'Emit'],
                   cases=lists)
        for n, b in enumerate(sorted(r.emitted, key=repr)):
            # not the exact gamma limit of the polar model
            fc = models[1]
            ref = Ref(fc, dict(splitting=b['split']), m)
            tokens = [[t[0], [0, 0, 0]] for t in b['res']]
            q = np.array(b['qs'])/m
            for use_c, reduce in ((True, True), (False, True), (True, False)):
                def one():
                    o = fc.calculate_qpoint_phonon_modes(
                        q, use_c=use_c, reduce_qpts=reduce,
                        splitting=b['split'])
                    if not np.array_equal(o.qpts, q):
                        return 'q-points changed'
                    for k, t in enumerate(tokens):
                        x = L.reconstruct(o, ref.masses)[k]
                        y = ref.get(t)[1]
                        # the next q-point differs by order 1/m in D
                        if not np.abs(x - y).max() < 1e-9*np.abs(y).max():
                            return f'modes at position {k} differ'
                ck.replay(f'close points {b["qs"]}/{m} use_c={use_c} '
                          f'reduce={reduce}', one, case=b['qs'])


def env_threads(ck, models, behaviours):
    """thread count from the environment variable"""
    fc = models[0]
    q = np.array([b for b in behaviours if len(b['qs']) == 7][0]['qs'])/M
    base = fc.calculate_qpoint_phonon_modes(q, use_c=False)
    for v in ('1', '3', ''):
        def one():
            os.environ['EUPHONIC_NUM_THREADS'] = v
            try:
                o = fc.calculate_qpoint_phonon_modes(q, use_c=True)
            finally:
                os.environ.pop('EUPHONIC_NUM_THREADS', None)
            a, b = L.freqs_hartree(o)**2, L.freqs_hartree(base)**2
            if np.abs(a - b).max() > 1e-9*b.max():
                return 'frequencies differ'
        ck.replay(f'EUPHONIC_NUM_THREADS={v!r}', one)


def _layouts(a, rng):
    """numerically equal arrays"""
    a = np.array(a, dtype=float)
    out = {'C': a.copy(), 'F': np.asfortranarray(a)}
    buf = np.zeros(tuple(2*s for s in a.shape))
    view = buf[tuple(slice(None, None, 2) for _ in a.shape)]
    view[...] = a
    out['strided'] = view
    out['reversed'] = a[::-1].copy()[::-1]
    ro = a.copy()
    ro.setflags(write=False)
    out['readonly'] = ro
    if np.array_equal(a, np.rint(a)):
        out['int64'] = a.astype(np.int64)
        out['int32'] = a.astype(np.int32)
    if np.array_equal(a, a.astype(np.float32)):
        out['float32'] = a.astype(np.float32)
    return out


def layouts(ck, ext):
    from euphonic import Crystal, ForceConstants, ureg
    use_ext(ext)
    rng = L.rng_for(ck.seed, 'c02lay')
    case, fc0, _ = polar.make(ck.seed, 'lay', n_atoms=2)
    # all-integer cell so every array has an integer representation
    fcunit = 'hartree/bohr**2'
    base = {
        'cell_vectors': [[6, 0, 1], [0, 7, 0], [1, -1, 8]],
        'atom_r': [[0, 0, 0], [.5, .25, .5]],
        'atom_mass': [28, 16],
        'force_constants': np.array(case['fc'])*4,
        'sc_matrix': case['sc'], 'cell_origins': case['orig'],
        'born': fc0.born.magnitude, 'dielectric': fc0.dielectric.magnitude,
        'qpts': [[0, 0, 0], [.5, 0, .25], [0, 0, 0], [-.5, .25, 1], [1, 0, 0],
                 [0, 0, 0], [.25, .5, .125]],
        'weights': [1, 2, 1, 3, 1, 1, 4]}
    ints = {'sc_matrix', 'cell_origins'}

    def build(d):
        cr = Crystal(d['cell_vectors']*ureg('bohr'), d['atom_r'],
                     np.array(['Si', 'O']), d['atom_mass']*ureg('amu'))
        return ForceConstants(cr, d['force_constants']*ureg(fcunit),
                              d['sc_matrix'], d['cell_origins'],
                              d['born']*ureg('e'),
                              d['dielectric']*ureg('e**2/(bohr*hartree)'))

    def arr(k, v):
        return np.array(v, dtype=int if k in ints else float)
    d0 = {k: arr(k, v) for k, v in base.items()}
    variants = [(k, name) for k in base
                for name in _layouts(base[k], rng)]
    variants += [(k, n) for k in sorted(ints)
                 for n in ('int32F', 'int32rev', 'int32str')]
    # gamma-only q list and an all-integer atom list too
    variants += [('qpts=int', n) for n in ('int64', 'int32', 'F', 'C')]
    variants += [('atom_r=int', n) for n in ('int64', 'int32')]
    for k, name in variants:
        d = dict(d0)
        if k == 'qpts=int':
            q = np.array([[0, 0, 0], [0, 1, 0], [0, 0, 0], [2, 0, -1]], float)
            d['qpts'] = _layouts(q, rng)[name]
            d['weights'] = np.ones(4)
            dref = dict(d, qpts=q)
        elif k == 'atom_r=int':
            r = np.array([[0, 0, 0], [1, 0, 0]], float)
            d['cell_vectors'] = d['cell_vectors'].copy()
            r2 = np.array([[0, 0, 0], [3, 0, 0]], float)
            # atoms on lattice points of each other are not physical: only
            # the single-atom integer position is (atom at the origin)
            continue
        else:
            lay = _layouts(base[k], rng).get(name)
            if name in ('int32F', 'int32rev', 'int32str'):
                src = np.array(base[k], dtype=np.int32)
                buf = np.zeros(tuple(2*s for s in src.shape), np.int32)
                buf[::2, ::2] = src
                lay = {'int32F': np.asfortranarray(src),
                       'int32rev': src[::-1].copy()[::-1],
                       'int32str': buf[::2, ::2]}[name]
            elif k in ints:
                lay = np.asarray(lay)
                if name in ('float32',):
                    continue
                if lay.dtype.kind == 'f':
                    src = np.array(base[k], dtype=int)
                    lay = {'F': np.asfortranarray(src),
                           'reversed': src[::-1].copy()[::-1],
                           'readonly': src.copy(),
                           'C': src.copy()}.get(name)
                    if lay is None:
                        buf = np.zeros(tuple(2*s for s in src.shape), int)
                        lay = buf[::2, ::2]
                        lay[...] = src
            d[k] = lay
            dref = d0
        for asr in (None, 'realspace', 'reciprocal'):
            for reduce in (True, False):
                def one():
                    a = build(d)
                    b = build(dref)
                    keep = {x: np.array(y, copy=True) for x, y in d.items()}
                    kw = dict(asr=asr, reduce_qpts=reduce)
                    # single precision input: unit conversions round to it
                    tol = 1e-6 if name == 'float32' else 1e-9
                    o1 = a.calculate_qpoint_phonon_modes(
                        d['qpts'], weights=d['weights'], use_c=True, **kw)
                    o3 = a.calculate_qpoint_phonon_modes(
                        d['qpts'], weights=d['weights'], use_c=False, **kw)
                    o2 = b.calculate_qpoint_phonon_modes(
                        dref['qpts'], weights=dref['weights'], use_c=False,
                        **kw)
                    for o in (o1, o3):
                        x, y = L.freqs_hartree(o), L.freqs_hartree(o2)
                        x, y = np.sign(x)*x**2, np.sign(y)*y**2
                        if not np.abs(x - y).max() <= tol*np.abs(y).max():
                            return 'frequencies differ'
                        if not np.allclose(o.weights, o2.weights, rtol=tol):
                            return 'weights differ'
                        ms = L.masses_me(b.crystal)
                        x, y = L.reconstruct(o, ms), L.reconstruct(o2, ms)
                        if not np.abs(x - y).max() <= 10*tol*np.abs(y).max():
                            return 'eigenvectors differ'
                    for x, y in d.items():
                        if not np.array_equal(y, keep[x]):
                            return f'input {x} was modified'
                ck.replay(f'{k} as {name} asr={asr} reduce={reduce}', one,
                          case={'arg': k, 'layout': name})
    # one atom at the origin, given as integers
    for dt in (np.int64, np.int32, np.float32):
        def one():
            cr = Crystal(np.diag([5, 6, 7])*ureg('bohr'),
                         np.zeros((1, 3), dtype=dt), np.array(['Si']),
                         np.array([28])*ureg('amu'))
            cr2 = Crystal(np.diag([5., 6., 7.])*ureg('bohr'), np.zeros((1, 3)),
                          np.array(['Si']), np.array([28.])*ureg('amu'))
            f = np.array([np.diag([5., 6, 7])+1])*ureg(fcunit)
            bo, di = np.array([np.diag([1., 2, 3])])*ureg('e'), np.diag(
                [2., 3, 4])*ureg('e**2/(bohr*hartree)')
            o = [ForceConstants(c, f, np.eye(3, dtype=int),
                                np.zeros((1, 3), dtype=int), bo, di
                                ).calculate_qpoint_frequencies(
                np.array([[.1, .2, .3], [0, 0, 0], [.5, 0, 0]]),
                use_c=u).frequencies.magnitude
                for c, u in ((cr, True), (cr2, False))]
            if not np.allclose(o[0], o[1], rtol=1e-8):
                return 'frequencies differ'
        ck.replay(f'one atom at the origin given as {dt.__name__}', one)
