"""The Cython packages of src_cython, built from the working tree in a scratch directory of this run."""
import atexit
import glob
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

import mc
from ref import ICO, DODE

SKIP = {'ico/strc1', 'ico/reciprocal'}       # do not compile at the pinned commit, nor in the project's own build
FIELD = {'ico': ICO, 'dode': DODE}
MODERN = {'ico': 'ico2', 'dode': 'dode2'}    # the alphabets are shared: same lattice, same projections
PKGS = ['ico', 'dode']
_SETUP = """
import sys
from setuptools import setup, Extension
from numpy import get_include
from Cython.Build import cythonize
ex = [Extension(p[:-4].replace('/', '.'), [p], include_dirs=['.', get_include()]) for p in sys.argv.pop(1).split(',')]
setup(name='legacy', packages=[], py_modules=[],
      ext_modules=cythonize(ex, compiler_directives={'language_level': 3}, nthreads=8, quiet=True))
"""
_built = {}


def build(want):
    """want: {'ico': [modules], 'dode': [modules]}; makes pyqcstrc.ico / pyqcstrc.dode importable"""
    root = tempfile.mkdtemp(prefix='vqcleg_')
    atexit.register(shutil.rmtree, root, True)
    pyx = []
    for pkg in want:
        d = os.path.join(root, 'pyqcstrc', pkg)
        os.makedirs(d)
        for s in glob.glob(os.path.join(mc.REPO, 'src_cython', pkg, '*.p*')):
            n = os.path.basename(s)
            stem, ext = os.path.splitext(n)
            if '%s/%s' % (pkg, stem) in SKIP or n == 'setup.py' or ext not in ('.py', '.pyx', '.pxd'):
                continue
            shutil.copyfile(s, os.path.join(d, n))
            if ext == '.pyx' and (want[pkg] is None or stem in want[pkg]):
                pyx.append('pyqcstrc/%s/%s' % (pkg, n))
    shutil.copyfile(os.path.join(mc.REPO, 'src', 'pyqcstrc', '__init__.py'), os.path.join(root, 'pyqcstrc', '__init__.py'))
    r = subprocess.run([sys.executable, '-c', _SETUP, ','.join(sorted(pyx)), '-q', 'build_ext', '--inplace', '-j8'],
                       cwd=root, env=dict(os.environ, CFLAGS=os.environ.get('VERIF_CFLAGS', '-O1 -w -g0')),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('the Cython packages do not build: ' + r.stdout[-2000:])
    import pyqcstrc
    pyqcstrc.__path__.append(os.path.join(root, 'pyqcstrc'))
    importlib.invalidate_caches()
    for pkg in want:
        importlib.import_module('pyqcstrc.' + pkg)


def mod(pkg, name):
    k = (pkg, name)
    if k not in _built:
        _built[k] = importlib.import_module('pyqcstrc.%s.%s' % (pkg, name))
    return _built[k]


MATH = {'ico': 'math1', 'dode': 'math12'}
UTIL = {'ico': 'utils', 'dode': 'utils12'}
SYM = {'ico': 'symmetry', 'dode': 'symmetry12'}
NUM = {'ico': 'numericalc', 'dode': 'numericalc12'}
INT = {'ico': 'intsct', 'dode': 'intsct12'}


def math(pkg):
    return mod(pkg, MATH[pkg])


def utils(pkg):
    return mod(pkg, UTIL[pkg])


def sym(pkg):
    return mod(pkg, SYM[pkg])


def num(pkg):
    return mod(pkg, NUM[pkg])


def intsct(pkg):
    return mod(pkg, INT[pkg])
