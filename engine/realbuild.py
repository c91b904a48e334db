"""A real build of /repo's current tree in a scratch directory (for replays and trace validation)."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .build_ir import REPO, SRC, BuildError

PY = '/opt/venv/bin/python'


class RealBuild:
    def __init__(self, asan=False):
        self.dir = tempfile.mkdtemp(prefix='pyscal_real_')
        self.asan = asan
        self.env = dict(os.environ, PYTHONPATH=self.dir + ':' + os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                        PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        if asan:
            lib = subprocess.run(['g++', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
            std = subprocess.run(['g++', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
            self.env['LD_PRELOAD'] = lib + ':' + std
            self.env['ASAN_OPTIONS'] = 'detect_leaks=0,abort_on_error=0,exitcode=77,allocator_may_return_null=1'
            self.env['UBSAN_OPTIONS'] = 'halt_on_error=1,exitcode=77,print_stacktrace=0'
            self.env['PYTHONMALLOC'] = 'malloc'

    def build(self):
        pkg = os.path.join(self.dir, 'pyscal')
        shutil.copytree(SRC, pkg, ignore=shutil.ignore_patterns('*.so', '__pycache__'))
        voro = REPO + '/lib/voro++'
        inc = subprocess.run([PY, '-m', 'pybind11', '--includes'], capture_output=True, text=True).stdout.split()
        flags = ['-O1', '-fPIC', '-std=c++17', '-fvisibility=hidden', '-w', '-I' + voro] + inc
        if self.asan:
            flags += ['-fsanitize=address,bounds,integer-divide-by-zero,signed-integer-overflow', '-fno-sanitize-recover=all',
                      '-fno-omit-frame-pointer', '-g1']
        cpps = sorted(f for f in os.listdir(SRC) if f.endswith(('.cpp', '.cc', '.cxx')))
        units = [os.path.join(SRC, f) for f in cpps] + [voro + '/voro++.cc']

        def cc(u):
            o = os.path.join(self.dir, os.path.basename(u) + '.o')
            r = subprocess.run(['g++'] + flags + ['-c', u, '-o', o], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('g++ failed on %s:\n%s' % (u, r.stderr[-3000:]))
            return o
        with ThreadPoolExecutor(len(units)) as ex:
            objs = dict(zip([os.path.basename(u) for u in units], ex.map(cc, units)))
        ext = sysconfig_ext()
        bindings = [f for f in cpps if f.endswith('_binding.cpp')]
        rest = [f for f in cpps if not f.endswith('_binding.cpp')]
        san = [f for f in flags if f.startswith('-fsanitize')]
        for b in bindings:
            mod = 'c' + b[:-len('_binding.cpp')]
            # as setup.py: catom = atom.cpp + binding; csystem = everything
            own = [f for f in rest if mod == 'csystem' or f == b.replace('_binding', '')] if set(rest) <= {'atom.cpp', 'system.cpp'} else rest
            os_ = [objs[b]] + [objs[f] for f in own] + [objs['voro++.cc']]
            r = subprocess.run(['g++', '-shared'] + san + os_ + ['-o', os.path.join(pkg, mod + ext)], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('link failed:\n' + r.stderr[-3000:])
        for o in objs.values():
            os.unlink(o)
        return self

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def sysconfig_ext():
    return subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'], capture_output=True, text=True).stdout.strip()
