"""Numeric domain of the symbolic executor.

A C++ `double` is one of
  int / Fraction   an exact constant
  float            only +inf, -inf or nan
  Poly             an exact real: polynomial with rational coefficients over atoms
An atom is an input variable or a defined quantity (square root, reciprocal,
cosine/sine of an angle, exp/log/..., integer part, uninitialised value) that
carries its defining axioms, which are handed to the solver with it.
Comparisons give Cond objects; taking their truth value asks the path explorer.
"""
import functools
import math
from fractions import Fraction

import numpy as np

INF = float('inf')
NAN = float('nan')


class Unsupported(BaseException):
    """The engine cannot encode this; the check is inconclusive."""


class _Ctx:
    explorer = None      # current path explorer (ctx.Explorer)
CUR = _Ctx()


def norm(c):
    if c.__class__ is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(x):
    """Any Python/numpy number -> exact constant or special float."""
    if x.__class__ is int:
        return x
    if x.__class__ is float:
        if x != x or x in (INF, -INF):
            return x
        return int(x) if x == int(x) and abs(x) < 1e300 else Fraction(x)
    if x.__class__ is Fraction:
        return norm(x)
    if isinstance(x, bool):
        return int(x)
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return int(x)
        if isinstance(x, np.integer):
            return int(x)
        if isinstance(x, np.floating):
            return const(float(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return const(x.item())
    except ImportError:
        pass
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return const(float(x))
    return None


# --------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'kind', 'name', 'data', 'lo', 'hi', 'z', 'isint', 'nz', 'lm', 'rep')

    def __init__(self, kind, name, data, lo, hi, isint=False):
        self.id = len(ATOMS)
        self.kind, self.name, self.data, self.lo, self.hi = kind, name, data, lo, hi
        self.z = None
        self.isint = isint
        self.nz = lo > 0 or hi < 0
        self.lm = self.rep = None
        ATOMS.append(self)

    def __repr__(self):
        return self.name


ATOMS = []
TABLE = {}


def reset_atoms():
    ATOMS.clear()
    TABLE.clear()


def atom_for(key, make):
    a = TABLE.get(key)
    if a is None:
        a = TABLE[key] = make()
    return a


def var(name, lo=-INF, hi=INF, isint=False):
    a = atom_for(('var', name), lambda: Atom('var', name, None, float(lo), float(hi), isint))
    return Poly({((a.id, 1),): 1})


# --------------------------------------------------------------------------
def mono_mul(m1, m2):
    """Multiply monomials; returns the merged exponent tuple (no reduction)."""
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] < b[0]:
            out.append(a); i += 1
        elif a[0] > b[0]:
            out.append(b); j += 1
        else:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1; j += 1
    if i < n1:
        out.extend(m1[i:])
    elif j < n2:
        out.extend(m2[j:])
    return tuple(out)


def needs_reduce(m):
    nexp = 0
    for a, e in m:
        k = ATOMS[a].kind
        if k == 'inv' and e > 0:
            lm = ATOMS[a].lm
            if lm is not None and divides(lm, m):
                return True
            continue
        if k == 'var' or k == 'floor' or k == 'angle':
            continue
        if (k == 'sqrt' and not 0 <= e <= 1) or (k == 'inv' and e < 0) or (k == 'sin' and not 0 <= e <= 1) \
                or (k == 'cbrt' and not 0 <= e <= 2):
            return True
        if k == 'exp':
            nexp += 1
            if e != 1 or nexp > 1:
                return True
    return False


def divides(lm, m):
    n = 0
    for a, e in m:
        if a == lm[n][0]:
            if e < lm[n][1]:
                return False
            n += 1
            if n == len(lm):
                return True
    return False


def set_lead(at):
    """x^k/P(x) -> polynomial part + rest/P(x) for denominators P over variables"""
    t = at.data.t
    if len(t) > 8 or any(ATOMS[a].kind != 'var' for m in t for a, e in m):
        return
    best = None
    for m in t:
        if any(e < 0 for a, e in m):
            return
        k = (sum(e for a, e in m), tuple((-a, e) for a, e in m))         # graded lexicographic order
        if m and (best is None or k > best[0]):
            best = (k, m)
    lm = best[1]
    c = Fraction(t[lm])
    tail = {mono_mul(m, ((at.id, 1),)): norm(-x / c) for m, x in t.items() if m != lm}
    tail[()] = norm(1 / c)
    at.lm, at.rep = lm, mk(tail)


def reduce_mono(m, c):
    """Rewrite a monomial with out-of-range exponents; returns a value."""
    for a, e in m:
        at = ATOMS[a]
        if at.kind == 'inv' and e > 0 and at.lm is not None and divides(at.lm, m):
            rest = mono_mul(m, tuple((b, -f) for b, f in at.lm))
            rest = mono_mul(rest, ((a, -1),))
            if not rest:
                return at.rep * c
            return mk({rest: c}) * at.rep if not needs_reduce(rest) else reduce_mono(rest, c) * at.rep
    keep = []
    extra = None
    expsum = None
    for a, e in m:
        at = ATOMS[a]
        k = at.kind
        if k == 'sqrt' and not 0 <= e <= 1:
            q, r = divmod(e, 2)
            f = ipow(at.data, q)
            extra = f if extra is None else extra * f
            if r:
                keep.append((a, r))
        elif k == 'cbrt' and not 0 <= e <= 2:
            q, r = divmod(e, 3)
            f = ipow(at.data, q)
            extra = f if extra is None else extra * f
            if r:
                keep.append((a, r))
        elif k == 'sin' and not 0 <= e <= 1:
            q, r = divmod(e, 2)
            co = Poly({((at.data, 1),): 1})
            f = ipow(1 - co * co, q)
            extra = f if extra is None else extra * f
            if r:
                keep.append((a, r))
        elif k == 'inv' and e < 0:
            f = ipow(at.data, -e)
            extra = f if extra is None else extra * f
        elif k == 'exp':
            t = at.data * e
            expsum = t if expsum is None else expsum + t
        else:
            keep.append((a, e))
    if expsum is not None:
        v = fexp(expsum)
        extra = v if extra is None else extra * v
    base = mk({tuple(keep): c})
    return base if extra is None else base * extra


def mk(t):
    """Build a value from a term dict (monomials already reduced)."""
    if not t:
        return 0
    if len(t) == 1:
        c = t.get(())
        if c is not None:
            return norm(c)
    return Poly(t)


def add_terms(t, other, f=1):
    for m, c in other.items():
        s = t.get(m, 0) + (c if f == 1 else c * f)
        if s:
            t[m] = s
        else:
            t.pop(m, None)


NUM = (int, Fraction)


def array_ufunc(self, uf, method, *ins, **kw):
    """numpy operations between arrays and symbolic scalars work on arrays of objects"""
    conv = []
    for x in ins:
        c = x.__class__
        if c is np.ndarray:
            if x.dtype != object:
                x = x.astype(object)
        elif c is Poly or c is SInt:
            a = np.empty((), dtype=object)
            a[()] = x
            x = a
        conv.append(x)
    return getattr(uf, method)(*conv, **kw)


class Poly:
    """Exact real value; immutable."""
    __slots__ = ('t', 'nn', '_b', '_k', '__weakref__')
    __array_ufunc__ = array_ufunc

    def __init__(self, t, nn=False):
        self.t = t
        self.nn = nn
        self._b = None
        self._k = None

    # -- arithmetic
    def __add__(self, o):
        c = o.__class__
        if c is Poly:
            t = dict(self.t)
            add_terms(t, o.t)
            r = mk(t)
            if r.__class__ is Poly and self.nn and o.nn:
                r.nn = True
            return r
        if c is not int and c is not Fraction:
            o = tonum(o)
            if o is NotImplemented:
                return o
            if o.__class__ is float:
                return o
            if o.__class__ is Poly:
                return self + o
        if not o:
            return self
        t = dict(self.t)
        s = t.get((), 0) + o
        if s:
            t[()] = s
        else:
            t.pop((), None)
        r = mk(t)
        if self.nn and o >= 0 and r.__class__ is Poly:
            r.nn = True
        return r
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        c = o.__class__
        if c is Poly:
            if o is self:
                return 0
            t = dict(self.t)
            add_terms(t, o.t, -1)
            return mk(t)
        if c is not int and c is not Fraction:
            o = tonum(o)
            if o is NotImplemented:
                return o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        c = o.__class__
        if c is Poly:
            if o is self:
                return self.square()
            return polymul(self, o)
        if c is not int and c is not Fraction:
            o = tonum(o)
            if o is NotImplemented:
                return o
            if o.__class__ is Poly:
                return self * o
            if o.__class__ is float:
                if o != o:
                    return o
                if self > 0:
                    return o
                if self < 0:
                    return -o
                return NAN
        if not o:
            return 0
        if o == 1:
            return self
        return Poly({m: k * o for m, k in self.t.items()}, self.nn and o > 0)
    __rmul__ = __mul__

    def square(self):
        r = polymul(self, self)
        if r.__class__ is Poly:
            r.nn = True
        return r

    def __truediv__(self, o):
        return fdiv(self, o)

    def __rtruediv__(self, o):
        if o.__class__ is list:         # numpy scalars take lists for arrays
            return np.array(o, dtype=object) / self
        return fdiv(o, self)

    def __pow__(self, e):
        return fpow(self, e)

    def __rpow__(self, b):
        return fpow(b, self)

    def __abs__(self):
        return fabs(self)

    def __floordiv__(self, o):
        return ffloor(fdiv(self, o))

    def __rfloordiv__(self, o):
        return ffloor(fdiv(o, self))

    def __mod__(self, o):
        return self - ffloor(fdiv(self, o)) * o

    def __rmod__(self, o):
        return o - ffloor(fdiv(o, self)) * self

    # -- comparisons
    def __lt__(self, o):
        return compare(self, o, '<')

    def __le__(self, o):
        return compare(self, o, '<=')

    def __gt__(self, o):
        return compare(self, o, '>')

    def __ge__(self, o):
        return compare(self, o, '>=')

    def __eq__(self, o):
        return compare(self, o, '==')

    def __ne__(self, o):
        return compare(self, o, '!=')

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    # -- numpy element methods (np.sqrt on object arrays calls x.sqrt())
    def sqrt(self):
        return fsqrt(self)

    def cos(self):
        return fcos(self)

    def sin(self):
        return fsin(self)

    def arccos(self):
        return facos(self)

    def exp(self):
        return fexp(self)

    def log(self):
        return flog(self)

    def conjugate(self):
        return self

    def floor(self):
        return ffloor(self)

    def ceil(self):
        return -ffloor(-self)

    def __floor__(self):
        return int_of(ffloor(self))

    def __ceil__(self):
        return int_of(-ffloor(-self))

    def rint(self):
        return fround(self)

    def __round__(self, n=None):
        if n is None:
            return int_of(fround(self))
        s = 10 ** n
        return fround(self * s) / s

    def __trunc__(self):
        return fptosi(self)

    def fabs(self):
        return fabs(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def astype(self, *_a, **_k):
        return self

    def item(self):
        return self

    def is_integer(self):
        return bool(ffloor(self) == self)

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        # concretises (forks on every feasible value)
        return concretize(fptosi(self))

    def __repr__(self):
        return 'Poly(%s)' % show(self)

    def __format__(self, spec):
        return format_symbolic(self, spec)

    def __str__(self):
        return format_symbolic(self, '')

    # -- helpers
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def bounds(self):
        if self._b is None:
            self._b = poly_bounds(self)
        return self._b


FORMAT_HOOK = [None]


def format_symbolic(p, spec):
    if FORMAT_HOOK[0] is None:
        raise Unsupported('formatting a symbolic value')
    return FORMAT_HOOK[0](p, spec)


def show(p):
    if p.__class__ is not Poly:
        return str(p)
    out = []
    for m, c in list(p.t.items())[:12]:
        out.append('*'.join([str(c)] + ['%s^%d' % (ATOMS[a].name, e) if e != 1 else ATOMS[a].name for a, e in m]))
    return ' + '.join(out) + (' + ...' if len(p.t) > 12 else '')


def tonum(o):
    if o.__class__ is SInt:
        return o.p
    c = const(o)
    if c is None:
        if o is UNDEF:
            return materialise()
        return NotImplemented
    return c


def polymul(a, b):
    ta, tb = a.t, b.t
    if len(ta) > len(tb):
        ta, tb = tb, ta
    if len(ta) * len(tb) > 4000000:
        raise Unsupported('polynomial too large')
    t = {}
    odd = {}
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            s = t.get(m)
            if s is None:
                t[m] = c
            else:
                s = s + c
                if s:
                    t[m] = s
                else:
                    del t[m]
    bad = [m for m in t if needs_reduce(m)]
    if not bad:
        return mk(t)
    rest = None
    for m in bad:
        v = reduce_mono(m, t.pop(m))
        rest = v if rest is None else rest + v
    return mk(t) + rest


def ipow(p, n):
    if n == 0:
        return 1
    if n < 0:
        return fdiv(1, ipow(p, -n))
    if p.__class__ is not Poly:
        return norm(Fraction(p) ** n) if p.__class__ is Fraction else p ** n
    r = None
    b = p
    while n:
        if n & 1:
            r = b if r is None else r * b
        n >>= 1
        if n:
            b = b.square() if b.__class__ is Poly else b * b
    return r


# -- bounds -----------------------------------------------------------------
def imul(a, b):
    l1, h1 = a
    l2, h2 = b
    c = []
    for x in (l1, h1):
        for y in (l2, h2):
            if x == 0 or y == 0:
                c.append(0.0)
            else:
                c.append(x * y)
    return min(c), max(c)


def ipow_b(b, e):
    lo, hi = b
    if e < 0:
        if lo > 0 or hi < 0:
            b = (1 / hi if hi else INF, 1 / lo if lo else INF)
            lo, hi = min(b), max(b)
            return ipow_b((lo, hi), -e)
        if lo == 0:
            return ipow_b((0.0 if hi == INF else 1 / hi, INF), -e) if hi > 0 else (-INF, INF)
        return (-INF, INF)
    if e == 1:
        return b
    try:
        if e % 2 == 0:
            m = max(abs(lo), abs(hi)) ** e
            if lo > 0 or hi < 0:
                return min(abs(lo), abs(hi)) ** e, m
            return 0.0, m
        return lo ** e, hi ** e
    except OverflowError:
        return (-INF, INF) if e % 2 else (0.0, INF)


def poly_bounds(p):
    lo = hi = 0.0
    scale = 0.0
    for m, c in p.t.items():
        b = (1.0, 1.0)
        for a, e in m:
            at = ATOMS[a]
            b = imul(b, ipow_b((at.lo, at.hi), e))
        try:
            f = float(c)
        except OverflowError:
            f = 1e308 if c > 0 else -1e308
            scale = INF
        l, h = (b[0] * f if b[0] else 0.0), (b[1] * f if b[1] else 0.0)
        if f < 0:
            l, h = h, l
        lo += l
        hi += h
        scale = max(scale, abs(l), abs(h))
    if lo != lo or hi != hi:
        return (0.0 if p.nn else -INF, INF)
    if scale == INF:
        lo, hi = (0.0 if all_nonneg(p) else -INF), INF
    else:
        eps = scale * 1e-11
        # a bound that is an exact 0 from signs of all terms stays 0
        if not (lo == 0.0):
            lo -= eps
        if not (hi == 0.0):
            hi += eps
        if lo < 0 and all_nonneg(p):
            lo = 0.0
    if p.nn and lo < 0:
        lo = 0.0
    return lo, hi


def all_nonneg(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and ATOMS[a].lo < 0:
                return False
    return True


def all_pos(p):
    """Sum of non-negative terms with at least one that is surely positive."""
    pos = False
    for m, c in p.t.items():
        if c < 0:
            return False
        surely = True
        for a, e in m:
            at = ATOMS[a]
            if e % 2 and at.lo < 0:
                return False
            if not (at.lo > 0 or at.hi < 0):
                surely = False
        pos = pos or surely
    return pos


def bounds(v):
    if v.__class__ is Poly:
        return v.bounds()
    f = float(v)
    return f, f


# -- conditions -------------------------------------------------------------
NEG = {'>': '<=', '>=': '<', '==': '!=', '!=': '==', '<': '>=', '<=': '>'}
FLIP = {'>': '<', '>=': '<=', '==': '==', '!=': '!=', '<': '>', '<=': '>='}


class Cond:
    """P op 0 (op in > >= == !=), or a conjunction/disjunction of Conds/bools."""
    __slots__ = ('p', 'op', 'args', '_key')
    __array_priority__ = 1000

    def __init__(self, p, op, args=None):
        self.p, self.op, self.args = p, op, args
        self._key = None

    def key(self):
        if self._key is None:
            if self.args is not None:
                self._key = (self.op,) + tuple(a.key() if a.__class__ is Cond else a for a in self.args)
            else:
                self._key = (self.op, self.p.key())
        return self._key

    def __bool__(self):
        return CUR.explorer.decide(self)

    def neg(self):
        if self.args is not None:
            return Cond(None, 'or' if self.op == 'and' else 'and', [cnot(a) for a in self.args])
        return mkcond(self.p, NEG[self.op])

    __invert__ = neg

    def __and__(self, o):
        return cand(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return cor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        a = bool(self)
        return (not o) if a else o
    __rxor__ = __xor__

    def __int__(self):
        return 1 if self else 0
    __index__ = __int__

    def __float__(self):
        return 1.0 if self else 0.0

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o
    __rmul__ = __mul__

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.args is not None:
            return '(' + (' %s ' % self.op).join(map(repr, self.args)) + ')'
        return '%s %s 0' % (show(self.p), self.op)


def cnot(a):
    if a.__class__ is Cond:
        return a.neg()
    return not a


def cand(*xs):
    out = []
    for x in xs:
        if x.__class__ is Cond:
            if x.op == 'and':
                out.extend(x.args)
            else:
                out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else Cond(None, 'and', out)


def cor(*xs):
    out = []
    for x in xs:
        if x.__class__ is Cond:
            if x.op == 'or':
                out.extend(x.args)
            else:
                out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else Cond(None, 'or', out)


def compare(a, b, op):
    if b.__class__ is float or a.__class__ is float:
        # finite Python floats can come from the Python layer
        if b.__class__ is float:
            cb = const(b)
            if cb.__class__ is float:
                if cb != cb:
                    return op == '!='
                return {'<': cb > 0, '<=': cb > 0, '>': cb < 0, '>=': cb < 0, '==': False, '!=': True}[op]
            b = cb
        if a.__class__ is float:
            ca = const(a)
            if ca.__class__ is float:
                return compare(b, a, FLIP[op])
            a = ca
    if b.__class__ is not Poly and b.__class__ not in NUM:
        b = tonum(b)
        if b is NotImplemented:
            return NotImplemented if op not in ('==', '!=') else (op == '!=')
        if b.__class__ is float:
            return compare(a, b, op)
    return mkcond(a - b, op)


def constcmp(d, op):
    if op == '>':
        return d > 0
    if op == '>=':
        return d >= 0
    if op == '==':
        return d == 0
    return d != 0


def lead(t):
    return min(t)


def mkcond(p, op):
    """Condition p op 0 with cheap decisions."""
    if p.__class__ is not Poly:
        if op in ('<', '<='):
            p, op = -p, FLIP[op]
        return constcmp(p, op)
    if op in ('<', '<='):
        lo, hi = p.bounds()
        p, op = -p, FLIP[op]
        p._b = (-hi, -lo)
    lo, hi = p.bounds()
    if op == '>':
        if lo > 0:
            return True
        if hi <= 0:
            return False
    elif op == '>=':
        if lo >= 0:
            return True
        if hi < 0:
            return False
    elif op == '==':
        if lo > 0 or hi < 0:
            return False
    else:
        if lo > 0 or hi < 0:
            return True
    # common positive monomial factor
    q = simplify_sign(p, op)
    if q.__class__ is bool or q.__class__ is Cond:
        return q
    p, op = q
    if p.__class__ is not Poly:
        return constcmp(p, op)
    # primitive form
    t = p.t
    l = t[lead(t)]
    s = abs(Fraction(1) / l)
    if op in ('==', '!=') and l < 0:
        s = -s
    if s != 1:
        p = Poly({m: norm(c * s) for m, c in t.items()}, p.nn and s > 0)
    else:
        p = Poly({m: norm(c) for m, c in t.items()}, p.nn)
    if p.nn and op == '>':
        pass
    return Cond(p, op)


def sign_of(v):
    """'+', '-', '0', '>=', '<=' or None, by bounds only."""
    if v.__class__ is not Poly:
        return '+' if v > 0 else '-' if v < 0 else '0'
    lo, hi = v.bounds()
    if lo > 0:
        return '+'
    if hi < 0:
        return '-'
    if lo >= 0:
        return '+' if all_pos(v) else '>='
    if hi <= 0:
        return '<='
    return None


def simplify_sign(p, op, depth=0):
    """Equivalent condition without denominators and, where signs are known, square roots."""
    p = clear_denominators(p)
    if p.__class__ is not Poly:
        return constcmp(p, op)
    # divide out common monomial factors with known sign
    t = p.t
    common = None
    for m in t:
        if common is None:
            common = dict(m)
        else:
            d = dict(m)
            for a in list(common):
                if a not in d:
                    del common[a]
                else:
                    common[a] = min(common[a], d[a])
        if not common:
            break
    if common:
        f = []
        flip = False
        for a, e in common.items():
            at = ATOMS[a]
            if at.lo > 0:
                f.append((a, e))
            elif at.hi < 0:
                f.append((a, e))
                if e % 2:
                    flip = not flip
        if f:
            inv = tuple(sorted((a, -e) for a, e in f))
            p = Poly({mono_mul(m, inv): (-c if flip else c) for m, c in t.items()}, False)
            if len(p.t) == 1 and () in p.t:
                return constcmp(p.t[()], op)
            t = p.t
    lo, hi = p.bounds()
    if op == '>' and lo > 0 or op == '>=' and lo >= 0 or op == '!=' and (lo > 0 or hi < 0):
        return True
    if op == '>' and hi <= 0 or op == '>=' and hi < 0 or op == '==' and (lo > 0 or hi < 0):
        return False
    if len(t) == 1:
        # single term: only the signs matter
        (m, c), = t.items()
        m2 = []
        s = 1 if c > 0 else -1
        for a, e in m:
            at = ATOMS[a]
            if at.lo > 0:
                continue
            if at.hi < 0:
                if e % 2:
                    s = -s
                continue
            k = at.kind
            if k == 'sqrt':      # r op 0  <=>  E op 0
                if len(m) == 1:
                    if op == '>' and s > 0:
                        return simplify_sign(at.data, '>', depth + 1) if depth < 8 else (at.data, '>')
                    if op in ('==', '!='):
                        return simplify_sign(at.data, op, depth + 1) if depth < 8 else (at.data, op)
                    if op == '>=' and s < 0:
                        return simplify_sign(at.data, '==', depth + 1) if depth < 8 else (at.data, '==')
            m2.append((a, 2 if (e % 2 == 0) else 1))
        return Poly({tuple(m2): s}), op
    if all_pos(p):
        return constcmp(1, op)
    # square-root elimination
    if depth < 6:
        cand_ = None
        for m in t:
            for a, e in m:
                if ATOMS[a].kind == 'sqrt' and (cand_ is None or a > cand_):
                    cand_ = a
        if cand_ is not None:
            a = cand_
            A, B = {}, {}
            for m, c in t.items():
                mm = tuple(x for x in m if x[0] != a)
                if len(mm) != len(m):
                    B[mm] = c
                else:
                    A[m] = c
            A, B = mk(A), mk(B)
            sa, sb = sign_of(A), sign_of(B)
            if sa is not None and sb is not None and sb in '+-':
                E = ATOMS[a].data
                pos = lambda s: s in ('+', '>=', '0')
                if sb == '+' and pos(sa):
                    if op == '>=':
                        return True
                    if sa == '+':
                        return op in ('>', '!=')
                elif sb == '-' and not pos(sa):
                    if op == '>':
                        return False
                    if sa == '-':
                        return op == '!='
                elif sb == '+':          # A <= 0 < B:  B r > -A  <=>  B^2 E > A^2
                    return simplify_sign(B * B * E - A * A, op, depth + 1)
                else:                    # B < 0 <= A:  A > -B r  <=>  A^2 > B^2 E
                    return simplify_sign(A * A - B * B * E, op, depth + 1)
    return p, op


def clear_denominators(p):
    """Multiply by positive quantities until no reciprocal remains (same sign, same zeros)."""
    for _ in range(50):
        if p.__class__ is not Poly:
            return p
        neg = {}
        inv = {}
        for m in p.t:
            for a, e in m:
                k = ATOMS[a].kind
                if k == 'inv':
                    if e > inv.get(a, 0):
                        inv[a] = e
                elif e < 0 and -e > neg.get(a, 0):
                    neg[a] = -e
        if not neg and not inv:
            return p
        if neg:
            f = []
            for a, e in sorted(neg.items()):
                at = ATOMS[a]
                if not (at.lo >= 0) and e % 2:
                    e += 1
                f.append((a, e))
            p = p * Poly({tuple(f): 1})
            continue
        a = max(inv)
        e = inv[a]
        at = ATOMS[a]
        E = at.data
        lo, hi = bounds(E)
        if e % 2 and not lo >= 0:
            e += 1
        out = 0
        groups = {}
        for m, c in p.t.items():
            k = 0
            mm = []
            for x in m:
                if x[0] == a:
                    k = x[1]
                else:
                    mm.append(x)
            groups.setdefault(k, {})[tuple(mm)] = c
        for k, t in groups.items():
            out = out + mk(t) * ipow(E, e - k)
        p = out
    raise Unsupported('denominators do not clear')


def is_zero(v):
    """Exact syntactic zero test (sound: True means the value is 0 wherever defined)."""
    if v.__class__ is not Poly:
        return v == 0
    v = clear_denominators(v)
    return v.__class__ is not Poly and v == 0


# -- division, roots, transcendental functions -------------------------------
def fdiv(a, b):
    ca, cb = a.__class__, b.__class__
    if cb is int or cb is Fraction:
        if b != 0:
            if ca is int:
                if cb is int and a % b == 0:
                    return a // b
                return norm(Fraction(a, 1) / b)
            if ca is Fraction:
                return norm(a / b)
            if ca is Poly:
                return a * (Fraction(1) / b)
    if ca is not Poly and ca not in NUM and ca is not float:
        a = tonum(a)
        ca = a.__class__
    if cb is not Poly and cb not in NUM and cb is not float:
        b = tonum(b)
        cb = b.__class__
    if ca is float:
        a = const(a); ca = a.__class__
    if cb is float:
        b = const(b); cb = b.__class__
    if ca is float or cb is float:
        if ca is float and cb is float:
            return NAN
        if cb is float:
            return NAN if b != b else 0
        if a != a:
            return a
        if b > 0 or b == 0:
            return a
        return -a
    if cb is Poly:
        z = b == 0
        if z.__class__ is not bool:
            z = bool(z)
        if z:
            b = 0
        else:
            return a * recip(b)
    elif b != 0:
        return fdiv(a, b)
    # division by zero
    if a == 0:
        return NAN
    return INF if a > 0 else -INF


def recip(b):
    """1/b for a Poly known to be non-zero on this path."""
    if len(b.t) == 1:
        (m, c), = b.t.items()
        mm = tuple((a, -e) for a, e in m)
        if needs_reduce(mm):
            return reduce_mono(mm, norm(Fraction(1) / c))
        return mk({mm: norm(Fraction(1) / c)})
    l = b.t[lead(b.t)]
    n = Poly({m: norm(c / Fraction(l)) for m, c in b.t.items()}, b.nn and l > 0) if l != 1 else b
    key = ('inv', n.key())

    def make():
        lo, hi = n.bounds()
        bl, bh = ipow_b((lo, hi), -1)
        return Atom('inv', 'inv%d' % len(ATOMS), n, bl * (1 - 1e-12) if bl > 0 else bl, bh)
    a = atom_for(key, make)
    if a.rep is None and a.lm is None:
        set_lead(a)
    return Poly({((a.id, 1),): norm(Fraction(1) / l)})


@functools.lru_cache(100000)
def int_sqrt_split(n):
    """n = s^2 * f; returns (s, list of prime factors of the rest)."""
    s = 1
    rest = []
    d = 2
    while d * d <= n and d < 20000:
        while n % (d * d) == 0:
            n //= d * d
            s *= d
        if n % d == 0:
            rest.append(d)
            n //= d
        d += 1
    if n > 1:
        r = math.isqrt(n)
        if r * r == n:
            s *= r
        else:
            rest.append(n)
    return s, rest


def sqrt_atom(E, name=None):
    key = ('sqrt', E if E.__class__ is not Poly else E.key())

    def make():
        lo, hi = bounds(E)
        lo = math.sqrt(max(lo, 0.0)) if lo != -INF else 0.0
        hi = math.sqrt(hi) if hi != INF and hi >= 0 else (INF if hi == INF else 0.0)
        return Atom('sqrt', 'sqrt%d' % len(ATOMS), E, lo * (1 - 1e-12), hi * (1 + 1e-12))
    a = atom_for(key, make)
    return Poly({((a.id, 1),): 1})


def sqrt_const(c):
    if c == 0:
        return 0
    f = Fraction(c)
    n = f.numerator * f.denominator
    s, rest = int_sqrt_split(n)
    r = norm(Fraction(s, f.denominator))
    for q in rest:
        r = r * sqrt_atom(q)
    return r


def poly_sqrt(p):
    """S with S*S == p, or None."""
    if len(p.t) > 60:
        return None
    atoms = sorted({a for m in p.t for a, e in m})
    for m in p.t:
        for a, e in m:
            if e < 0 or ATOMS[a].kind != 'var':
                return None
    def k(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in atoms)
    def root(m, c):
        if c <= 0:
            return None
        for a, e in m:
            if e % 2:
                return None
        f = Fraction(c)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n != f.numerator or d * d != f.denominator:
            return None
        return tuple((a, e // 2) for a, e in m), Fraction(n, d)
    lm = max(p.t, key=k)
    r = root(lm, p.t[lm])
    if r is None:
        return None
    S = {r[0]: norm(r[1])}
    lead_m, lead_c = r
    inv = tuple((a, -e) for a, e in lead_m)
    for _ in range(20):
        Sp = mk(dict(S))
        R = p - (Sp * Sp)
        if R.__class__ is not Poly:
            return Sp if R == 0 else None
        m = max(R.t, key=k)
        q = mono_mul(m, inv)
        if any(e < 0 for a, e in q) or q in S:
            return None
        S[q] = norm(Fraction(R.t[m]) / (2 * lead_c))
    return None


def fsqrt(x):
    if x.__class__ is SInt:
        x = x.p
    if x.__class__ is not Poly:
        x = const(x)
        if x.__class__ is float:
            return NAN if x < 0 else x
        if x < 0:
            return NAN
        return sqrt_const(x)
    if x < 0:
        return NAN
    # rational content and even monomial content
    q, denom = strip_inv(x)
    r = _fsqrt_core(q)
    if denom is not None:
        r = r * denom
    if r.__class__ is Poly and not r.nn:
        r = Poly(r.t, True)
    return r


def strip_inv(x):
    """x = q * d^2 with q free of reciprocals; returns (q, d) (d None when 1)."""
    d = None
    for _ in range(20):
        if x.__class__ is not Poly:
            return x, d
        inv = {}
        neg = {}
        for m in x.t:
            for a, e in m:
                k = ATOMS[a].kind
                if k == 'inv':
                    inv[a] = max(inv.get(a, 0), e)
                elif e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if neg:
            f = tuple(sorted((a, e + e % 2) for a, e in neg.items()))
            h = tuple(sorted((a, -((e + e % 2) // 2)) for a, e in neg.items()))
            x = x * Poly({f: 1})
            hd = fabs(Poly({h: 1}))
            d = hd if d is None else d * hd
            continue
        if not inv:
            return x, d
        a = max(inv)
        e = inv[a]
        E = ATOMS[a].data
        out = 0
        for m, c in x.t.items():
            k = 0
            mm = []
            for y in m:
                if y[0] == a:
                    k = y[1]
                else:
                    mm.append(y)
            out = out + mk({tuple(mm): c}) * ipow(E, e - k)
        # x = out / E^e
        if e % 2 == 0:
            h = fabs(ipow(Poly({((a, 1),): 1}), e // 2))
            d = h if d is None else d * h
            x = out
        else:
            # sqrt(out/E^e) = sqrt(out) * sqrt(1/E) / E^((e-1)/2)   when E > 0
            if not bool(E > 0):
                x = -out
                E = -E
            else:
                x = out
            h = _fsqrt_core(E)            # sqrt(E)
            h = fdiv(1, h)
            if e > 1:
                h = h * fdiv(1, ipow(E, (e - 1) // 2))
            d = h if d is None else d * h
    raise Unsupported('sqrt of deeply nested fraction')


def _fsqrt_core(x):
    if x.__class__ is not Poly:
        return sqrt_const(x)
    # content
    t = x.t
    g = 0
    den = 1
    for c in t.values():
        f = Fraction(c)
        g = math.gcd(g, f.numerator)
        den = den * f.denominator // math.gcd(den, f.denominator)
    content = Fraction(g, den)
    common = None
    for m in t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    pulled = []
    if common:
        for a, e in common.items():
            at = ATOMS[a]
            if at.kind == 'sqrt':
                continue
            if e >= 2 or (at.lo >= 0 and len(t) > 0 and e >= 1):
                pulled.append((a, e))
    out = sqrt_const(content)
    t2 = {}
    if pulled:
        inv = tuple(sorted((a, -(e if ATOMS[a].lo >= 0 else 2 * (e // 2))) for a, e in pulled))
        for m, c in t.items():
            t2[mono_mul(m, inv)] = norm(c / content)
        for a, e in pulled:
            at = ATOMS[a]
            if at.lo >= 0:
                h = ipow(Poly({((a, 1),): 1}), e // 2)
                if e % 2:
                    h = h * sqrt_atom(Poly({((a, 1),): 1}))
            else:
                h = fabs(ipow(Poly({((a, 1),): 1}), e // 2))
            out = out * h
    elif content != 1:
        t2 = {m: norm(c / content) for m, c in t.items()}
    else:
        t2 = t
    q = mk(t2)
    if q.__class__ is not Poly:
        return out * sqrt_const(q)
    if q.__class__ is Poly:
        q.nn = q.nn or x.nn
    S = poly_sqrt(q)
    if S is not None:
        return out * fabs(S)
    return out * sqrt_atom(q)


def fabs(x):
    if x.__class__ is Poly or x.__class__ is SInt:
        return x if x >= 0 else -x
    return abs(x)


class SInt:
    """Symbolic machine integer: a Poly over integer atoms (no wrap-around: range-checked)."""
    __slots__ = ('p',)
    __array_ufunc__ = array_ufunc

    def __init__(self, p):
        self.p = p

    @staticmethod
    def mk(p):
        if p.__class__ is Poly:
            lo, hi = p.bounds()
            if lo < -2.0 ** 62 or hi > 2.0 ** 62:
                raise Unsupported('symbolic integer may overflow')
            return SInt(p)
        if p.__class__ is Fraction:
            raise Unsupported('non-integral integer')
        return p

    def _o(self, o):
        if o.__class__ is SInt:
            return o.p
        if o.__class__ is int:
            return o
        if isinstance(o, (bool, Cond)):
            return int(o)
        c = const(o)
        return c

    def __add__(self, o):
        if o.__class__ is Poly:
            return self.p + o
        v = self._o(o)
        if v is None:
            return NotImplemented
        r = self.p + v
        return SInt.mk(r) if v.__class__ is not Fraction and o.__class__ is not float else r
    __radd__ = __add__

    def __sub__(self, o):
        if o.__class__ is Poly:
            return self.p - o
        v = self._o(o)
        if v is None:
            return NotImplemented
        r = self.p - v
        return SInt.mk(r) if v.__class__ is not Fraction and o.__class__ is not float else r

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SInt(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        return fabs(self)

    def __mul__(self, o):
        if o.__class__ is Poly:
            return self.p * o
        v = self._o(o)
        if v is None:
            return NotImplemented
        r = self.p * v
        return SInt.mk(r) if v.__class__ is not Fraction and o.__class__ is not float else r
    __rmul__ = __mul__

    def __truediv__(self, o):
        return fdiv(self.p, o.p if o.__class__ is SInt else o)

    def __rtruediv__(self, o):
        return fdiv(o, self.p)

    def __floordiv__(self, o):
        return idivfloor(self, o)

    def __mod__(self, o):
        return self - idivfloor(self, o) * o

    def __pow__(self, e):
        return SInt.mk(fpow(self.p, e)) if e.__class__ is int and e >= 0 else fpow(self.p, e)

    def __lshift__(self, n):
        return self * (1 << n)

    def __rshift__(self, n):
        return idivfloor(self, 1 << n)

    def __and__(self, n):
        v = concretize(self)
        return v & n
    __rand__ = __and__

    def __or__(self, n):
        return concretize(self) | n
    __ror__ = __or__

    def __xor__(self, n):
        if n == -1:
            return -self - 1
        return concretize(self) ^ n
    __rxor__ = __xor__

    def __lt__(self, o):
        return compare(self.p, o, '<')

    def __le__(self, o):
        return compare(self.p, o, '<=')

    def __gt__(self, o):
        return compare(self.p, o, '>')

    def __ge__(self, o):
        return compare(self.p, o, '>=')

    def __eq__(self, o):
        return compare(self.p, o, '==')

    def __ne__(self, o):
        return compare(self.p, o, '!=')

    def __hash__(self):
        return hash(concretize(self))

    def __bool__(self):
        return bool(self.p != 0)

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        return float(concretize(self))

    def __repr__(self):
        return 'SInt(%s)' % show(self.p)

    def __format__(self, spec):
        return format_symbolic(self, spec or 'd')

    def __str__(self):
        return format_symbolic(self, 'd')


def int_of(v):
    if v.__class__ is Poly:
        return SInt.mk(v)
    if v.__class__ is Fraction:
        raise Unsupported('not an integer')
    return v


def concretize(v):
    """Fork over every feasible value of a symbolic integer."""
    if v.__class__ is SInt:
        v = v.p
    if v.__class__ is not Poly:
        return v
    return CUR.explorer.concretize(v)


def idivfloor(a, b):
    p = a.p if a.__class__ is SInt else a
    if b.__class__ is not int or b <= 0:
        b = concretize(b)
        if b == 0:
            raise ZeroDivisionError
        if b < 0:
            return idivfloor(-a, -b)
    if p.__class__ is not Poly:
        return p // b
    return SInt.mk(int_part(fdiv(p, b)))


def int_part(x):
    """floor(x) as an integer atom."""
    if x.__class__ is not Poly:
        return math.floor(x)
    if all(ATOMS[a].isint and e > 0 for m in x.t for a, e in m) and \
            all(Fraction(c).denominator == 1 for c in x.t.values()):
        return x
    # split off integral part
    lo, hi = x.bounds()
    if lo != -INF and hi != INF and math.floor(lo) == math.floor(hi):
        return math.floor(lo)
    key = ('floor', x.key())

    def make():
        return Atom('floor', 'floor%d' % len(ATOMS), x,
                    float(math.floor(lo)) if lo != -INF else -INF, float(math.floor(hi)) if hi != INF else INF, True)
    a = atom_for(key, make)
    return Poly({((a.id, 1),): 1})


def ffloor(x):
    if x.__class__ is SInt:
        return x.p
    if x.__class__ is Poly:
        return int_part(x)
    if x.__class__ is float:
        return x if const(x).__class__ is float else math.floor(x)
    return math.floor(x)


def fceil(x):
    return -ffloor(-x)


def ftrunc(x):
    if x.__class__ is float:
        return x
    return ffloor(x) if x >= 0 else -ffloor(-x)


def fround(x):
    """round half away from zero (C); half-even ties are outside the model."""
    if x.__class__ is float:
        return x
    return ffloor(x + Fraction(1, 2)) if x >= 0 else -ffloor(-x + Fraction(1, 2))


def fptosi(x):
    if x.__class__ is SInt:
        return x
    if x is UNDEF:
        x = materialise()
    if x.__class__ is float:
        c = const(x)
        if c.__class__ is float:
            return -2147483648        # what x86 cvttsd2si gives for i32
        x = c
    v = ftrunc(x)
    return int_of(v)


# -- angles, exp, log ---------------------------------------------------------
def angle(c, s, approx):
    """An angle with known cosine and sine; canonical per (c, s)."""
    kc = c.key() if c.__class__ is Poly else c
    ks = s.key() if s.__class__ is Poly else s
    key = ('angle', kc, ks)

    def make():
        lo, hi = approx
        return Atom('angle', 'ang%d' % len(ATOMS), (c, s), lo, hi)
    a = atom_for(key, make)
    return Poly({((a.id, 1),): 1})


PIF = Fraction(math.pi)


def facos(x):
    if x.__class__ is not Poly:
        x = const(x) if x.__class__ is not SInt else x.p
    if x.__class__ is float or x > 1 or x < -1:
        return NAN
    if x == 1:
        return 0
    s = fsqrt(1 - x * x)
    lo, hi = bounds(x)
    ap = (math.acos(min(1.0, max(-1.0, hi + 1e-12))) - 1e-12, math.acos(min(1.0, max(-1.0, lo - 1e-12))) + 1e-12)
    return angle(x, s, (max(ap[0], 0.0), ap[1]))


def fasin(x):
    if x.__class__ is float or x > 1 or x < -1:
        return NAN
    if x == 0:
        return 0
    c = fsqrt(1 - x * x)
    lo, hi = bounds(x)
    return angle(c, x, (math.asin(max(-1.0, lo - 1e-12)) - 1e-12, math.asin(min(1.0, hi + 1e-12)) + 1e-12))


def fatan2(y, x):
    if y.__class__ is float or x.__class__ is float:
        if y.__class__ is float and y != y or x.__class__ is float and x != x:
            return NAN
        raise Unsupported('atan2 of infinity')
    yz = bool(y == 0)
    if yz:
        if x >= 0:
            return 0
        return angle(-1, 0, (math.pi - 1e-12, math.pi + 1e-12))
    if bool(x == 0):
        pos = bool(y > 0)
        return angle(0, 1 if pos else -1, ((math.pi / 2 if pos else -math.pi / 2) - 1e-12, (math.pi / 2 if pos else -math.pi / 2) + 1e-12))
    xx = x.square() if x.__class__ is Poly else x * x
    yy = y.square() if y.__class__ is Poly else y * y
    r = fsqrt(xx + yy)
    c, s = fdiv(x, r), fdiv(y, r)
    (cl, ch), (sl, sh) = bounds(c), bounds(s)
    lo, hi = -math.pi - 1e-12, math.pi + 1e-12
    if sl >= 0:
        lo = -1e-12
    if sh <= 0:
        hi = 1e-12
    if cl == ch or (cl > -1 and ch < 1 and ch - cl < 1e-6 and (sl > 0 or sh < 0)):
        m = math.atan2((sl + sh) / 2, (cl + ch) / 2)
        w = 4 * (ch - cl + sh - sl) + 1e-9
        lo, hi = m - w, m + w
    elif cl >= 0:
        lo, hi = max(lo, -math.pi / 2 - 1e-12), min(hi, math.pi / 2 + 1e-12)
    return angle(c, s, (lo, hi))


def cossin(x):
    """(cos x, sin x)"""
    if x.__class__ is SInt:
        x = x.p
    if x.__class__ is float:
        c = const(x)
        if c.__class__ is float:
            return NAN, NAN
        x = c
    if x.__class__ is not Poly:
        if x == 0:
            return 1, 0
        return generic_cossin(x)
    c, s = 1, 0
    rest = 0
    for m, k in x.t.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'angle' and k == int(k):
            n = int(k)
            ac, as_ = ATOMS[m[0][0]].data
            if n < 0:
                as_, n = -as_, -n
            pc, ps = 1, 0
            for _ in range(n):
                pc, ps = pc * ac - ps * as_, pc * as_ + ps * ac
            c, s = c * pc - s * ps, c * ps + s * pc
        else:
            rest = rest + mk({m: k})
    if not (rest.__class__ is not Poly and rest == 0):
        gc, gs = generic_cossin(rest)
        c, s = c * gc - s * gs, c * gs + s * gc
    return c, s


def generic_cossin(x):
    neg = False
    if x.__class__ is Poly:
        if x.t[lead(x.t)] < 0:
            x, neg = -x, True
    elif x < 0:
        x, neg = -x, True
    k = x.key() if x.__class__ is Poly else x

    def mk_c():
        if x.__class__ is Poly:
            return Atom('cos', 'cos%d' % len(ATOMS), x, -1.0, 1.0)
        v = math.cos(x)
        return Atom('cos', 'cos%d' % len(ATOMS), x, v - 1e-14, v + 1e-14)
    ca = atom_for(('cos', k), mk_c)

    def mk_s():
        if x.__class__ is Poly:
            return Atom('sin', 'sin%d' % len(ATOMS), ca.id, -1.0, 1.0)
        v = math.sin(x)
        return Atom('sin', 'sin%d' % len(ATOMS), ca.id, v - 1e-14, v + 1e-14)
    sa = atom_for(('sin', k), mk_s)
    c = Poly({((ca.id, 1),): 1})
    s = Poly({((sa.id, 1),): 1})
    return c, (-s if neg else s)


def fcos(x):
    return cossin(x)[0]


def fsin(x):
    return cossin(x)[1]


def ftan(x):
    c, s = cossin(x)
    return fdiv(s, c)


def fexp(x):
    if x.__class__ is SInt:
        x = x.p
    if x.__class__ is float:
        x = const(x)
        if x.__class__ is float:
            return x if x != x else (INF if x > 0 else 0)
    if x.__class__ is not Poly:
        if x == 0:
            return 1
        if x < -745:
            lo, hi = 0.0, 5e-324
        elif x > 700:
            raise Unsupported('exp overflow')
        else:
            v = math.exp(x)
            lo, hi = v * (1 - 1e-13), v * (1 + 1e-13)
        a = atom_for(('exp', x), lambda: Atom('exp', 'exp%d' % len(ATOMS), x, lo, hi))
        return Poly({((a.id, 1),): 1})
    # exp(n*log(u)) -> u^n
    lo, hi = x.bounds()

    def ex(v):
        return 0.0 if v < -700 else (INF if v > 700 else math.exp(v))
    a = atom_for(('exp', x.key()), lambda: Atom('exp', 'exp%d' % len(ATOMS), x, ex(lo) * (1 - 1e-13), ex(hi) * (1 + 1e-13)))
    return Poly({((a.id, 1),): 1})


def flog(x):
    if x.__class__ is SInt:
        x = x.p
    if x.__class__ is float:
        x = const(x)
        if x.__class__ is float:
            return x if x > 0 else NAN
    if bool(x == 0):
        return -INF
    if x < 0:
        return NAN
    if x.__class__ is not Poly:
        if x == 1:
            return 0
        v = math.log(x)
        a = atom_for(('log', x), lambda: Atom('log', 'log%d' % len(ATOMS), x, v - abs(v) * 1e-13 - 1e-300, v + abs(v) * 1e-13 + 1e-300))
        return Poly({((a.id, 1),): 1})
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'exp':
            return ATOMS[m[0][0]].data
    lo, hi = x.bounds()
    l = math.log(lo) - 1e-12 if lo > 0 else -INF
    h = math.log(hi) + 1e-12 if hi != INF else INF
    a = atom_for(('log', x.key()), lambda: Atom('log', 'log%d' % len(ATOMS), x, l, h))
    return Poly({((a.id, 1),): 1})


def fcbrt(x):
    if x.__class__ is float:
        x = const(x)
        if x.__class__ is float:
            return x
    if x.__class__ is not Poly:
        f = Fraction(x)
        sgn = -1 if f < 0 else 1
        f = abs(f)

        def ir(n):
            r = round(n ** (1 / 3)) if n < 1e300 else 0
            for k in (r - 1, r, r + 1):
                if k >= 0 and k ** 3 == n:
                    return k
        n, d = ir(f.numerator), ir(f.denominator)
        if n is not None and d is not None:
            return norm(sgn * Fraction(n, d))
        v = float(f) ** (1 / 3)
        a = atom_for(('cbrt', f), lambda: Atom('cbrt', 'cbrt%d' % len(ATOMS), f, v * (1 - 1e-13), v * (1 + 1e-13)))
        return Poly({((a.id, 1),): sgn})
    # cube monomial content
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if any(e % 3 == 0 for a, e in m):
            out = Poly({tuple((a, e // 3) for a, e in m if e % 3 == 0): 1})
            rest = mk({tuple((a, e) for a, e in m if e % 3): c})
            return out * fcbrt(rest)
    lo, hi = x.bounds()
    cb = lambda v: v if v in (INF, -INF) else math.copysign(abs(v) ** (1 / 3), v)
    a = atom_for(('cbrt', x.key()), lambda: Atom('cbrt', 'cbrt%d' % len(ATOMS), x,
                 cb(lo) * (1 - 1e-13 if lo > 0 else 1 + 1e-13), cb(hi) * (1 + 1e-13 if hi > 0 else 1 - 1e-13)))
    return Poly({((a.id, 1),): 1})


def fpow(b, e):
    if e.__class__ is SInt:
        e = e.p
    if b.__class__ is SInt:
        b = b.p
    ce = const(e) if e.__class__ is not Poly else e
    cb = const(b) if b.__class__ is not Poly else b
    if ce is None or cb is None:
        if b is UNDEF:
            return fpow(materialise(), e)
        if e is UNDEF:
            return fpow(b, materialise())
        return NotImplemented
    if ce.__class__ is Poly:
        if all(ATOMS[a].isint for m in ce.t for a, x in m):
            return fpow(b, concretize(ce))
        return fexp(ce * flog(cb))
    if ce.__class__ is float or cb.__class__ is float:
        try:
            return const(float(cb) ** float(ce)) if cb.__class__ is not Poly else NAN
        except (OverflowError, ZeroDivisionError):
            return INF
    if ce.__class__ is int:
        if abs(ce) > 4000:
            if cb.__class__ is not Poly and abs(cb) <= 1:
                pass
            else:
                raise Unsupported('large power')
        if ce < 0 and bool(cb == 0):
            return INF
        return ipow(cb, ce)
    # fractional exponent
    if ce.denominator == 2:
        r = fsqrt(cb)
        if r.__class__ is float and r != r:
            return r
        n = ce.numerator
        if n < 0 and bool(cb == 0):
            return INF
        return ipow(r, n)
    if bool(cb == 0):
        return 0 if ce > 0 else INF
    if cb < 0:
        return NAN
    if abs(ce - Fraction(1, 3)) < Fraction(1, 10 ** 15):
        return fcbrt(cb)
    return fexp(ce * flog(cb))


def fhypot(a, b):
    return fsqrt(a * a + b * b)


def fmod_(a, b):
    q = ftrunc(fdiv(a, b))
    return a - q * b


# -- uninitialised values -----------------------------------------------------
class Undef:
    """Marker for a value read from uninitialised memory."""
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'

    def _bin(name):
        def f(self, o):
            v = materialise()
            if o is UNDEF:
                o = materialise()
            r = getattr(v, name)(o)
            return r
        return f
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
               '__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__', '__pow__'):
        locals()[_n] = _bin(_n)
    del _n, _bin

    def __neg__(self):
        return -materialise()

    def __abs__(self):
        return fabs(materialise())

    def __bool__(self):
        return bool(materialise() > 0)

    def __hash__(self):
        return 7

    def __float__(self):
        raise Unsupported('float() of an uninitialised value')


def materialise():
    return CUR.explorer.fresh_uninit()


UNDEF = Undef()


def materialise_int():
    return CUR.explorer.fresh_uninit(True)
