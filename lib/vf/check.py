"""Bookkeeping of one check run: cases replayed, violations, evidence."""
import json
import os
import sys
import time
import traceback

from . import tlc as tlc_mod
from . import stage as stage_mod

VERIF = tlc_mod.VERIF


class Skip(Exception):
    pass


def _default(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        if np.iscomplexobj(o):
            return {'re': o.real.tolist(), 'im': o.imag.tolist()}
        return o.tolist()
    if isinstance(o, complex):
        return {'re': o.real, 'im': o.imag}
    return repr(o)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.models = []
        self.notes = {}
        self.known = self._load_known()
        self.known_hit = {}
        self.work = os.path.join(VERIF, 'build', 'work')
        os.makedirs(self.work, exist_ok=True)
        self.exhaustive = None

    # ---- budget -----------------------------------------------------
    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    # ---- model ------------------------------------------------------
    def tlc(self, module, **kw):
        r = tlc_mod.run(module, self.work, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'module': module, 'distinct': r.distinct,
                            'generated': r.generated,
                            'emitted': len(r.emitted),
                            'wall_s': round(r.wall, 1),
                            **({'violates': r.violated} if r.violated else {})})
        return r

    # ---- code -------------------------------------------------------
    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def _load_known(self):
        fn = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(fn):
            return []
        with open(fn) as f:
            return [k for k in json.load(f).get('findings', [])
                    if k['property'] == self.prop]

    def violation(self, what, case=None, key=None):
        """key: identifies the specific input/history (for known findings)"""
        for k in self.known:
            if key is not None and k['key'] == key:
                self.known_hit.setdefault(k['key'], k['what'])
                return
        self.violations.append({'what': what, 'case': case, 'key': key})
        if len(self.violations) <= 5:
            print(f'[{self.prop}] mismatch: {what}', file=sys.stderr)

    def replay(self, label, fn, case=None, key=None):
        """Run one spec behaviour against the real code. fn returns None (ok)
        or a string describing the mismatch.  An exception that leaves the
        code under test is a mismatch, one from the harness is an error."""
        self.evals += 1
        try:
            r = fn()
        except Skip:
            self.evals -= 1
            return False
        except Exception as e:
            if isinstance(e, Mismatch):
                r = str(e)
            elif from_repo(e):
                tb = traceback.format_exception(e)
                r = (f'unexpected {type(e).__name__}: {e} :: '
                     + ''.join(tb[-3:]))
            else:
                raise
        if r:
            self.violation(f'{label}: {r}', case, key)
            return False
        self.traces += 1
        return True

    # ---- end --------------------------------------------------------
    def finish(self):
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'evaluations': self.evals,
                'samples': self.samples or ['none'],
                'models': self.models, **self.notes},
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations)}
        if self.exhaustive is not None:
            ev['coverage']['exhaustive'] = self.exhaustive
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        fn = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
        with open(fn + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=_default)
        os.replace(fn + '.tmp', fn)
        for k, w in self.known_hit.items():
            print(f'KNOWN-FINDING: property={self.prop} {w}')
        if self.violations:
            d = os.path.join(VERIF, 'build', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{self.prop}-{self.tier}-{self.seed}.json')
            with open(path, 'w') as f:
                json.dump(self.violations[:50], f, indent=1, default=_default)
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        if self.traces == 0:
            print(f'{self.prop}: nothing was validated', file=sys.stderr)
            return 2
        print(f'{self.prop}: ok  states={self.states} '
              f'transitions={self.transitions} traces={self.traces} '
              f'wall={time.time() - self.t0:.1f}s')
        return 0


class Mismatch(Exception):
    """raised by a harness: the code is wrong"""


def from_repo(e):
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(stage_mod.REPO + '/'):
            return True
        tb = tb.tb_next
    return False
