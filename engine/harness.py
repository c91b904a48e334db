"""The two faces of a harness: symbolic (SymE) and concrete (ConcE)."""
import importlib
import math
import os
import shutil
import sys
import tempfile
from fractions import Fraction


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class H:
    """one harness: fn(E, **params) run for every params dict of the tier"""

    def __init__(self, name, fn, quick, thorough=None, note=''):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = quick if thorough is None else thorough
        self.note = note


class Base:
    scratch = None

    def tmpdir(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix='pyscal_h_')
        return self.scratch

    def cleanup(self):
        if self.scratch is not None:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    # shared oracle helpers
    def And(self, *xs):
        return self.all(xs)

    def dot(self, a, b):
        s = 0
        for x, y in zip(a, b):
            s = s + x * y
        return s

    def norm(self, v):
        return self.sqrt(self.dot(v, v))

    def eqs(self, a, b, what, tol=1e-7):
        a, b = list(a), list(b)
        self.check(len(a) == len(b), '%s: %d values instead of %d' % (what, len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            if hasattr(x, '__len__'):
                self.eqs(x, y, '%s[%d]' % (what, i), tol)
            else:
                self.eq(x, y, '%s[%d]' % (what, i), tol)

    def same(self, a, b, what):
        """exact equality of (lists of) integers / strings"""
        if hasattr(a, '__len__') and not isinstance(a, str):
            a, b = list(a), list(b)
            self.check(len(a) == len(b), '%s: %r instead of %r' % (what, a, b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.same(x, y, '%s[%d]' % (what, i))
        else:
            self.check(a == b, '%s: %s instead of %s' % (what, a if self.concrete else type(a).__name__, b if self.concrete else type(b).__name__)
                       if self.concrete else what)


class ConcE(Base):
    concrete = True

    def __init__(self, env, choices):
        self.env = env
        self.choices = list(choices)
        self.cpos = 0
        self.obs = []
        self.nchecks = 0
        self.finished = False

    def real(self, name, lo, hi):
        v = float(self.env.get(name, (lo + hi) / 2))
        return min(max(v, lo), hi)

    def int(self, name, lo, hi):
        return int(round(self.env.get(name, lo)))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        if self.cpos < len(self.choices):
            n, i = self.choices[self.cpos]
            self.cpos += 1
            if n != name:
                raise AssumeFailed('choice %s expected, %s recorded' % (name, n))
        else:
            i = 0
        return options[i]

    def assume(self, c):
        if not c:
            raise AssumeFailed('assumption')

    def apart(self, a, b, m=1e-6):
        if abs(a - b) <= m / 2:
            raise AssumeFailed('tie')

    def tied(self, a, b):
        return abs(a - b) < 1e-9

    def check(self, c, what):
        self.nchecks += 1
        if not c:
            raise CheckFailed(what)

    def eq(self, a, b, what, tol=1e-7):
        self.nchecks += 1
        a, b = complex(a), complex(b)
        if not abs(a - b) <= 0.5 * tol * (1 + abs(b)):
            raise CheckFailed('%s: %r instead of %r' % (what, a if a.imag else a.real, b if b.imag else b.real))

    def observe(self, name, v):
        self.obs.append((name, flat(v)))

    def done(self):
        self.finished = True

    def all(self, xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def abs(self, x):
        return abs(x)

    def known(self, x):
        return float(x)

    def const(self, x):
        return x

    def frac(self, a, b):
        return a / b

    def parse(self, text):
        return float(text)

    def number(self, x):
        return float(x)

    sqrt = staticmethod(lambda x: math.sqrt(x) if x > 0 else 0.0)
    floor = staticmethod(math.floor)
    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)
    exp = staticmethod(math.exp)
    log = staticmethod(math.log)
    cbrt = staticmethod(lambda x: math.copysign(abs(x) ** (1 / 3), x))
    acos = staticmethod(lambda x: math.acos(max(-1.0, min(1.0, x))))

    def div(self, a, b):
        return a / b

    def mod(self, name):
        return importlib.import_module('pyscal.' + name)


def flat(v):
    if isinstance(v, (list, tuple)) or hasattr(v, '__len__') and not isinstance(v, (str, dict)):
        return [flat(x) for x in v]
    if isinstance(v, (bool, int)):
        return int(v)
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)
