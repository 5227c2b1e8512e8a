import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import stage, tlc
stage.build_c()
bad = 0
for f in sorted(glob.glob(os.path.join(tlc.SPEC, '*.tla'))):
    p = subprocess.run(['java', '-cp', tlc.JARS, 'tla2sany.SANY', f],
                       capture_output=True, text=True, cwd=tlc.SPEC)
    if p.returncode or 'error' in p.stdout.lower():
        print(f, p.stdout[-1500:], p.stderr[-500:])
        bad = 1
sys.exit(bad)
