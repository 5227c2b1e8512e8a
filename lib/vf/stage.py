"""Makes the code under test importable from /repo's working tree: the C
extension is compiled here (outside /repo) from /repo/c and preloaded, the
Python sources are imported straight from /repo."""
import fcntl
import glob
import hashlib
import importlib
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VF_REPO', '/repo')
BUILD = '/verif/build'


class StageError(Exception):
    pass


def build_c():
    srcs = sorted(glob.glob(os.path.join(REPO, 'c', '*.c')))
    deps = srcs + sorted(glob.glob(os.path.join(REPO, 'c', '*.h')))
    import numpy
    h = hashlib.sha256()
    h.update(numpy.__version__.encode() + sys.version.encode())
    for f in deps:
        h.update(os.path.basename(f).encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    suffix = importlib.machinery.EXTENSION_SUFFIXES[0]
    d = os.path.join(BUILD, 'cext')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, h.hexdigest()[:24] + suffix)
    if os.path.exists(out):
        return out
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        for old in glob.glob(os.path.join(d, '*' + suffix)):
            os.unlink(old)
        tmp = out + '.tmp'
        cmd = ['gcc', '-shared', '-fPIC', '-O2', '-fwrapv', '-DNDEBUG',
               '-fno-strict-aliasing', '-fopenmp', '-w',
               '-I' + sysconfig.get_paths()['include'],
               '-I' + numpy.get_include(), '-I' + os.path.join(REPO, 'c'),
               *srcs, '-o', tmp, '-lm']
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise StageError('C extension did not compile:\n' + p.stderr)
        os.replace(tmp, out)
    return out


def stage(c_ext=True):
    """import euphonic from /repo with a freshly built C extension"""
    if 'euphonic' in sys.modules:
        return sys.modules['euphonic']
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    so = build_c()
    spec = importlib.util.spec_from_file_location('euphonic._euphonic', so)
    ext = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(ext)
    sys.modules['euphonic._euphonic'] = ext
    import euphonic
    if not euphonic.__file__.startswith(REPO + '/'):
        raise StageError(f'euphonic came from {euphonic.__file__}')
    euphonic._euphonic = ext
    return euphonic
