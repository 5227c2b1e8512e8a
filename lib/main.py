import importlib
import os
import sys

for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
os.environ['MPLBACKEND'] = 'agg'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.pop('EUPHONIC_NUM_THREADS', None)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'props'))
cfgdir = os.path.join(os.path.dirname(HERE), 'build', 'mplconfig')
os.makedirs(cfgdir, exist_ok=True)
os.environ['MPLCONFIGDIR'] = cfgdir


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    import warnings
    warnings.simplefilter('ignore')
    from vf import stage
    from vf.check import Check
    ck = Check(prop)
    stage.stage()
    mod = importlib.import_module(prop.lower())
    try:
        mod.run(ck)
    except Exception:
        import traceback
        traceback.print_exc()
        if ck.violations:
            sys.exit(ck.finish())
        sys.exit(3)
    sys.exit(ck.finish())


main()
