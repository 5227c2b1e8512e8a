"""Plants one bug: python3 plant.py SPECFILE.py
SPECFILE defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO
(python source of the demonstration).  Works in a scratch copy of /repo; keeps
the bug in /verif/seeded/ID when it is valid, and reports whether the
property's quick check catches it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          errors='replace', **kw)


def main(spec, check=True):
    s = runpy.run_path(spec)
    d = tempfile.mkdtemp(prefix='plant_')
    out = os.path.join(V, 'seeded', s['ID'])
    rep = [s['ID']]
    try:
        r = os.path.join(d, 'repo')
        b = os.environ.get('PLANT_BASE', '/repo')
        sh(f'git clone -q {b} {r}; cp -a /repo/euphonic/*.so {r}/euphonic/')
        for fn, old, new in s['EDITS']:
            p = os.path.join(r, fn)
            t = open(p, newline='').read()
            if '\r\n' in t:
                old, new = (x.replace('\n', '\r\n') for x in (old, new))
            assert t.count(old) == 1, (s['ID'], fn, t.count(old))
            open(p, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff'],
                              capture_output=True).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.py', 'w').write(s['DEMO'])
        open(out + '/demo.sh', 'w').write(
            '#!/bin/bash\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\n'
            f'exec {PY} "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'],
                   'what_it_breaks': s['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
        if any(fn.startswith('c/') for fn, _, _ in s['EDITS']):
            b = sh('so=$(ls euphonic/*.so); rm $so; gcc -shared -fPIC -O3 '
                   '-DNDEBUG -fopenmp -w $(' + PY + " -c 'import numpy,"
                   'sysconfig;print("-I"+numpy.get_include(),"-I"+sysconfig'
                   '.get_paths()["include"])' + "') -Ic c/*.c -o $so -lm", cwd=r)
            if b.returncode:
                rep.append('BUILD FAILED ' + b.stderr[-500:])
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MPLBACKEND='agg',
                   OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=d)
        a = sh(f'bash {out}/demo.sh', cwd='/repo')
        b = sh(f'bash {out}/demo.sh', cwd=r)
        rep.append(f'demo clean={a.returncode} bug={b.returncode}')
        if a.returncode:
            rep.append(a.stderr[-600:])
        if not b.returncode:
            rep.append('DEMO DOES NOT FAIL ' + b.stdout[-300:])
        t = sh(f'{PY} -m pytest -q -p no:cacheprovider --import-mode=append '
               f'-n 6 --timeout=300 --continue-on-collection-errors '
               f'-o junit_family=xunit2 --basetemp={d}/t '
               f'--junitxml={d}/j.xml .', env=env,
               cwd=r + '/tests_and_analysis/test')
        sh(f'{PY} /opt/vp/results.py {d}/o.json junit:{d}/j.xml')
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open(d + '/o.json'))
        kg = next(k for k in got if 'pass' in k)
        lost = sorted(set(base['stable'])
                      - {x.replace(r, '/repo') for x in got[kg]})
        rep.append(f'tests lost={len(lost)} {lost[:3]}')
        valid = not a.returncode and b.returncode and not lost
        rep.append('VALID' if valid else 'INVALID')
        if check and valid:
            # separate copy of /verif's working tree, to keep evidence apart
            e2 = dict(os.environ, VF_REPO=r, VERIF_SEED='1',
                      VERIF_TIER='quick')
            c = sh(f'{V}/check {s["PROP"]}', env=e2, cwd=V)
            rep.append(f'check exit={c.returncode} '
                       + ('CAUGHT' if c.returncode == 1 and 'VIOLATION' in
                          c.stdout else 'MISSED'))
            mm = [x for x in c.stderr.splitlines() if 'mismatch' in x]
            rep.append('\n   '.join(x[:260] for x in mm[:2]))
            if c.returncode not in (0, 1):
                rep.append(c.stderr[-800:])
        if not valid:
            shutil.rmtree(out)
    finally:
        shutil.rmtree(d)
    print('\n  '.join(x for x in rep if x), flush=True)


if __name__ == '__main__':
    for f in sys.argv[1:]:
        try:
            main(f)
        except AssertionError as e:
            print('EDIT FAILED', e)
