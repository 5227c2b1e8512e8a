"""Runs TLC on the specifications in /verif/spec and collects what they emit."""
import json
import os
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SPEC = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class TLCError(Exception):
    """Machinery failure: parse error, evaluation error, timeout."""


class TLCResult:
    def __init__(self):
        self.emitted = []
        self.generated = 0
        self.distinct = 0
        self.violated = None
        self.text = ''
        self.coverage = {}
        self.wall = 0.


def tla(v):
    """Python value -> TLA+ expression"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith('\\raw ') else '"%s"' % v
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join(f'{k} |-> {tla(x)}' for k, x in v.items()) + ']'
    raise TypeError(v)


def run(module, workdir, cases=None, constants=None, invariants=(),
        properties=(), spec='Spec', init=None, next_=None, view=None,
        constraint=None, deadlock=False, simulate=None, depth=None, seed=None,
        workers=8, timeout=600, heap='6g', symmetry=None, postcondition=None,
        expect_violation=False, coverage=False):
    """Run TLC.  `cases` is written as JSON and handed over through the
    environment (spec reads IOEnv.VF_IN).  The spec emits results with
    PrintT("@@" \\o ToJson(..)).  Constants that are not plain numbers or
    strings go through a generated wrapper module."""
    # TLC normalises shared constant sets in place: with several workers this
    # can fail ("occurs multiple times in the function domain"), so an
    # error is only believed if one worker finds it, too
    for w in (workers, 1):
        tag = f'{module}-{os.getpid()}-{int(time.time()*1e6) % 10**9}'
        wd = os.path.join(workdir, tag)
        os.makedirs(wd, exist_ok=True)
        try:
            return _run(module, wd, cases, constants or {}, invariants,
                        properties, spec, init, next_, view, constraint,
                        deadlock, simulate, depth, seed, w, timeout, heap,
                        symmetry, postcondition, expect_violation, coverage)
        except TLCError as e:
            if w == 1 or 'timed out' in str(e):
                raise
        finally:
            shutil.rmtree(wd, ignore_errors=True)


def _run(module, wd, cases, constants, invariants, properties, spec, init,
         next_, view, constraint, deadlock, simulate, depth, seed, workers,
         timeout, heap, symmetry, postcondition, expect_violation, coverage):
    env = dict(os.environ)
    if cases is not None:
        fin = os.path.join(wd, 'in.json')
        with open(fin, 'w') as f:
            json.dump(cases, f)
        env['VF_IN'] = fin
    main = 'MC_' + module
    lines = [f'---- MODULE {main} ----', f'EXTENDS {module}']
    cfg = []
    for k, v in constants.items():
        lines.append(f'mc_{k} == {tla(v)}')
        cfg.append(f'CONSTANT {k} <- mc_{k}')
    lines.append('====')
    with open(os.path.join(wd, main + '.tla'), 'w') as f:
        f.write('\n'.join(lines))
    if init:
        cfg += [f'INIT {init}', f'NEXT {next_}']
    else:
        cfg.append(f'SPECIFICATION {spec}')
    cfg += [f'INVARIANT {i}' for i in invariants]
    cfg += [f'PROPERTY {i}' for i in properties]
    if view:
        cfg.append(f'VIEW {view}')
    if constraint:
        cfg.append(f'CONSTRAINT {constraint}')
    if symmetry:
        cfg.append(f'SYMMETRY {symmetry}')
    if postcondition:
        cfg.append(f'POSTCONDITION {postcondition}')
    cfg.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    with open(os.path.join(wd, main + '.cfg'), 'w') as f:
        f.write('\n'.join(cfg) + '\n')
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss16m',
           f'-DTLA-Library={SPEC}', '-cp', JARS, 'tlc2.TLC',
           '-config', main + '.cfg', '-metadir', os.path.join(wd, 'meta'),
           '-workers', str(workers), '-noGenerateSpecTE']
    if coverage:
        cmd += ['-coverage', '60']
    if simulate:
        cmd += ['-simulate', f'num={simulate}']
        if depth:
            cmd += ['-depth', str(depth)]
        cmd += ['-seed', str(seed or 1)]
    cmd.append(main + '.tla')
    t0 = time.time()
    out = os.path.join(wd, 'stdout')
    with open(out, 'w') as fo:
        try:
            p = subprocess.run(cmd, cwd=wd, env=env, stdout=fo,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError(f'TLC timed out after {timeout}s on {module}')
    res = TLCResult()
    res.wall = time.time() - t0
    text = []
    with open(out, errors='replace') as fi:
        for line in fi:
            if line.startswith('"@@'):
                res.emitted.append(json.loads(json.loads(line)[2:]))
            elif line.startswith('@@'):
                res.emitted.append(json.loads(line[2:]))
            else:
                text.append(line)
    res.text = ''.join(text)
    m = None
    for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct',
                         res.text):
        pass
    if m:
        res.generated = int(m.group(1).replace(',', ''))
        res.distinct = int(m.group(2).replace(',', ''))
    else:
        m = None
        for m in re.finditer(r'The number of states generated: ([\d,]+)', res.text):
            pass
        if m:
            res.generated = res.distinct = int(m.group(1).replace(',', ''))
    v = re.search(r'(Invariant \S+ is violated|Action property \S+ is violated'
                  r'|Temporal properties were violated|Deadlock reached'
                  r'|property \S+ is violated)', res.text)
    if v:
        res.violated = v.group(1)
        if expect_violation:
            return res
        raise TLCError(f'{module}: the specification itself violates its '
                       f'property: {v.group(1)}\n' + res.text[-4000:])
    if p.returncode != 0:
        raise TLCError(f'TLC exit {p.returncode} on {module}\n'
                       + res.text[-4000:])
    if expect_violation:
        raise TLCError(f'{module}: TLC was expected to find a violation of '
                       'the deliberately broken variant and found none')
    if coverage:
        for mm in re.finditer(r'<(\w+) line \d+.*?>: (\d+):(\d+)', res.text):
            res.coverage[mm.group(1)] = (int(mm.group(2)), int(mm.group(3)))
    return res
