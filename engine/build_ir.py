"""Compile /repo's current C++ sources to LLVM IR and load them."""
import os
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

from . import irparse

REPO = os.environ.get('PYSCAL_REPO', '/repo')
SRC = REPO + '/src/pyscal'
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = '/usr/lib/llvm-18/bin/clang++'
FLAGS = ['-std=c++17', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
         '-fno-math-errno', '-fno-strict-aliasing', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS=0',
         '-U_GLIBCXX_ASSERTIONS', '-I' + HERE + '/shim', '-S', '-emit-llvm']


class BuildError(Exception):
    pass


def compile_ir(units, outdir):
    def one(u):
        out = os.path.join(outdir, os.path.basename(u) + '.ll')
        r = subprocess.run([CLANG] + FLAGS + ['-o', out, u], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('clang failed on %s:\n%s' % (u, r.stderr[-3000:]))
        return out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))


def units():
    """every translation unit of the package (atom.cpp, system.cpp, their bindings, ...)"""
    return sorted(os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith(('.cpp', '.cc', '.cxx')))


def load():
    d = tempfile.mkdtemp(prefix='pyscal_ir_')
    try:
        lls = compile_ir(units(), d)
        return [irparse.Module(open(p).read(), os.path.basename(p)) for p in lls]
    finally:
        shutil.rmtree(d, ignore_errors=True)
