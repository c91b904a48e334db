"""Symbolic face of a harness."""
import math
from fractions import Fraction

import numpy as np

from . import dom, rt, ctx, pyenv, pyext, build_ir, codegen
from .dom import Poly, SInt, Cond, const
from .harness import Base


class World:
    """the encoded code: IR of the C++ units, ASTs of the Python files"""

    def __init__(self):
        import ase.io          # third-party modules the package imports, loaded once before forking
        self.modules = build_ir.load()
        self.reg = pyext.Registry(None)
        self.extra = {}
        hooks = dict(self.reg.hooks())
        for n in ('put', 'box', 'periodic', 'cells', 'pid', 'compute', 'nfaces', 'area', 'neigh', 'order', 'perim', 'nfv', 'fv', 'nverts', 'vert',
                  'volume'):
            hooks['__voro_' + n] = (lambda nm: lambda *a: getattr(self.voro, nm)(*a))(n)
        self.voro = None
        self.prog = codegen.Program(self.modules, hooks)
        self.reg.prog = self.prog
        ex = ctx.Explorer()
        ex.begin([])
        self.prog.run_ctors()
        m = rt.Ptr(rt.Obj(8, 'module'))
        self.module_classes = {}
        for mod in self.modules:
            for f in mod.functions:
                if f.startswith('__pyshim_init_'):
                    n = len(self.reg.order)
                    self.reg.attrs = {}
                    self.prog.call(f, m)
                    self.module_classes[f[len('__pyshim_init_'):]] = self.reg.order[n:]
        # catom first: csystem uses its classes
        mc = dict(sorted(self.module_classes.items()))
        self.ext, self.conv = pyext.build_modules(self.reg, mc)
        self.sources = pyenv.Sources(build_ir.SRC)
        self.registered = set(self.prog.encoded)
        self.snapshot()

    def snapshot(self):
        self.snap = [(o, list(o.d)) for o in self.prog.gobj.values()]
        self.known_globals = set(self.prog.gobj)

    def restore(self):
        for o, d in self.snap:
            o.d[:] = d
        if len(self.prog.gobj) != len(self.known_globals):
            for k in [k for k in self.prog.gobj if k not in self.known_globals]:
                o = self.prog.gobj[k]
                pristine = self.prog.pristine.get(k)
                if pristine is not None:
                    o.d[:] = pristine


class SymE(Base):
    concrete = False

    def __init__(self, world, ex):
        self.w = world
        self.ex = ex
        self.obs = []
        self.finished = False
        self.nchecks = 0
        self.pkg = None
        self.stubs = {}
        pyenv.Tokens.table = {}

    def real(self, name, lo, hi):
        v = dom.var(name, lo, hi)
        self.ex.inputs.append(('real', name, v))
        if self.ex.env is not None and name not in self.ex.env:
            self.ex.env[name] = (lo + hi) / 2
        self.bound(v, lo, hi)
        return v

    def bound(self, v, lo, hi):
        pass        # bounds are axioms of the atom

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = SInt(dom.var(name, lo, hi, True))
        self.ex.inputs.append(('int', name, v))
        if self.ex.env is not None and name not in self.ex.env:
            self.ex.env[name] = float(lo)
        return v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.ex.choice(len(options))
        self.ex.inputs.append(('choice', name, i))
        return options[i]

    def assume(self, c):
        self.ex.assume(cnd(c))

    def apart(self, a, b, m=1e-6):
        d = a - b
        m = Fraction(m)
        self.ex.assume(dom.cor(cnd(d > m), cnd(d < -m)))

    def tied(self, a, b):
        """equal whatever the inputs"""
        d = val(a - b)
        if d.__class__ is not Poly:
            return abs(d) < 1e-9
        return bool(dom.is_zero(d))

    def check(self, c, what):
        self.nchecks += 1
        self.ex.check(cnd(c), what)

    def eq(self, a, b, what, tol=1e-7):
        self.nchecks += 1
        for x, y, s in ((a, b, ''),) if not is_cplx(a) and not is_cplx(b) else ((a.real, b.real, ' (real)'), (a.imag, b.imag, ' (imag)')):
            x, y = val(x), val(y)
            if x.__class__ is float or y.__class__ is float:      # inf / nan
                self.ex.check(x == y, what + s)
                continue
            d = x - y
            t = Fraction(tol)
            if d.__class__ is not Poly:
                ok = abs(d) <= t * (1 + (abs(y) if y.__class__ is not Poly else 0))
                self.ex.check(bool(ok), what + s)
                continue
            lo, hi = d.bounds()
            if -tol <= lo and hi <= tol:
                self.ex.stats.checks += 1
                self.ex.stats.checks_simplified += 1
                continue
            red, eps = ctx.Z.reduce_poly(d)
            if eps:
                lo, hi = red.bounds() if red.__class__ is Poly else (red, red)
                if -tol * 0.99 <= lo and hi <= tol * 0.99:
                    self.ex.stats.checks += 1
                    self.ex.stats.checks_simplified += 1
                    continue
            sc = t
            if y.__class__ is not Poly:
                sc = t * (1 + abs(y))
            elif not (max(map(abs, y.bounds())) < 10):
                # relative: |d| <= t(1+|y|)  <-  d <= t(1+|y|)
                self.ex.check(dom.cand(dom.cor(cnd(d <= t + t * y), cnd(d <= t - t * y)), dom.cor(cnd(-d <= t + t * y), cnd(-d <= t - t * y))),
                              what + s)
                continue
            self.ex.check(dom.cand(cnd(d <= sc), cnd(-d <= sc)), what + s)

    def observe(self, name, v):
        self.obs.append((name, v))

    def done(self):
        self.finished = True

    def all(self, xs):
        return dom.cand(*[cnd(x) for x in xs])

    def Or(self, *xs):
        return dom.cor(*[cnd(x) for x in xs])

    def Not(self, x):
        return dom.cnot(cnd(x))

    def abs(self, x):
        return dom.fabs(val(x))

    def const(self, x):
        return const(x)

    def frac(self, a, b):
        return const(Fraction(a, b))

    def parse(self, text):
        return pyenv.vfloat(text)

    def number(self, x):
        """a plain number: that of a constant, else one within its bounds (to guess with; what is guessed must be checked)"""
        x = val(x)
        if x.__class__ is Poly:
            lo, hi = x.bounds()
            return (max(lo, -1e300) + min(hi, 1e300)) / 2
        return float(x)

    sqrt = staticmethod(lambda x: dom.fsqrt(val(x)))
    cos = staticmethod(lambda x: dom.fcos(val(x)))
    sin = staticmethod(lambda x: dom.fsin(val(x)))
    exp = staticmethod(lambda x: dom.fexp(val(x)))
    log = staticmethod(lambda x: dom.flog(val(x)))
    cbrt = staticmethod(lambda x: dom.fcbrt(val(x)))
    acos = staticmethod(lambda x: dom.facos(val(x)))
    floor = staticmethod(lambda x: dom.int_of(dom.ffloor(val(x))))

    def div(self, a, b):
        return dom.fdiv(val(a), val(b))

    def mod(self, name):
        if self.pkg is None:
            self.pkg = pyenv.Package(self.w.sources, self.w.ext, self.stubs)
        self.pkg.imp('pyscal')
        return self.pkg.load('pyscal.' + name)


def is_cplx(x):
    return isinstance(x, (complex, pyext.SymComplex, np.complexfloating))


def val(x):
    c = x.__class__
    if c is Poly or c is int:
        return x
    if c is SInt:
        return x.p
    if c is Cond:
        return 1 if x else 0
    if isinstance(x, np.ndarray) and x.size == 1:
        return val(x.reshape(-1)[0])
    v = const(x)
    if v is None:
        raise TypeError('not a number: %r' % (x,))
    return v


def cnd(c):
    if c.__class__ is Cond or c.__class__ is bool:
        return c
    return bool(c)
