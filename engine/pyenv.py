"""Loads the real Python sources of pyscal so that symbolic values flow through them.

The .py files are parsed from /repo on every run and executed with substitutes for
numpy/math/float/int (which would otherwise realise symbolic values), for the two
extension modules (executed IR, see pyext) and, where a harness asks, for ase."""
import ast
import builtins
import math as real_math
import os
import re
import types
import warnings
from fractions import Fraction

import numpy as np

from . import dom
from .dom import Poly, SInt, Cond, UNDEF, Unsupported, const, CUR
from .pyext import SymComplex

SYM = (Poly, SInt, Cond, SymComplex)


def issym(x):
    return x.__class__ in SYM


def hassym(x):
    if x.__class__ in SYM:
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(y.__class__ in SYM for y in x.flat)
    if isinstance(x, (list, tuple)):
        return any(hassym(y) for y in x)
    return False


# ------------------------------------------------------------------ formatting of symbolic values
class Tokens:
    table = {}


def fmt_token(p, spec):
    """Text for a symbolic number; parsing it gives the value as rounded by the format."""
    n = len(Tokens.table)
    v = p
    m = re.match(r'^(?P<fill>[^0-9.]*)(?P<w>\d*)(?:\.(?P<prec>\d+))?(?P<t>[a-zA-Z%]?)$', spec or '')
    if not m:
        raise Unsupported('format spec %r' % spec)
    t, prec = m.group('t'), m.group('prec')
    isint = p.__class__ is SInt
    if isint:
        p = p.p
        v = p
    if t in ('f', 'F'):
        k = int(prec) if prec is not None else 6
        err = Fraction(1, 2 * 10 ** k)
        e = dom.var('fmt%d' % n, float(-err), float(err))
        if not isint:
            v = p + e
    elif t in ('e', 'g', 'E', 'G') and not isint:
        k = int(prec) if prec is not None else 6
        rel = Fraction(1, 10 ** (k - (1 if t in 'gG' else 0))) / 2
        e = dom.var('fmt%d' % n, float(-rel), float(rel))
        v = p * (1 + e)
    elif t == 'd' and not isint:
        v = dom.fptosi(p)
        isint = True
    tok = '@%d@' % n
    Tokens.table[tok] = SInt.mk(v) if isint and v.__class__ is Poly else v
    return tok


dom.FORMAT_HOOK[0] = fmt_token
SPEC = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def vpow(a, b):
    if a.__class__ is np.ndarray and a.dtype == object and not isinstance(b, np.ndarray) and b not in (1, 2):
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = dom.fpow(a[i], b) if issym(a[i]) or isinstance(a[i], Fraction) else a[i] ** b
        return out
    return a ** b


def vastype(a, dtype, *x, **k):
    dtype = fixdtype(dtype)
    if isinstance(a, np.ndarray) and a.dtype == object and any(y.__class__ in SYM for y in a.flat):
        if dtype in (int, 'int', np.int64):
            f = vint
        elif dtype in (float, 'float', np.float64):
            f = vfloat
        elif dtype in (str, 'str'):
            f = str
        elif dtype in (object, 'object'):
            return a.copy()
        else:
            raise Unsupported('astype(%r) of symbolic values' % (dtype,))
        out = np.empty(a.shape, dtype=object)
        for i, y in np.ndenumerate(a):
            out[i] = f(y)
        return out
    return a.astype(dtype, *x, **k)


def vmod(a, b):
    if isinstance(a, str):
        tup = b if isinstance(b, tuple) else (b,)
        if not isinstance(b, dict) and any(issym(x) for x in tup):
            it = iter(tup)

            def sub(m):
                c = m.group(5)
                if c == '%':
                    return '%'
                x = next(it)
                if issym(x):
                    if c in 'sr':
                        return format(x, '')
                    if x.__class__ is Cond:
                        x = bool(x)
                        return m.group(0) % x
                    if c in 'di':
                        return format(x, 'd')
                    return format(x, ('.' + m.group(4) if m.group(4) else '') + c)
                return m.group(0) % (x,)
            return SPEC.sub(sub, a)
        return a % b
    return a % b


# ------------------------------------------------------------------ float / int
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or x.__class__ is Poly

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is Poly

    def __eq__(cls, o):
        return o is float or o is vfloat

    def __hash__(cls):
        return hash(float)

    def __call__(cls, x=0.0):
        c = x.__class__
        if c is Poly:
            return x
        if c is SInt:
            return x.p
        if c is Cond:
            return 1.0 if x else 0.0
        if isinstance(x, str) and '@' in x:
            v = Tokens.table.get(x.strip())
            if v is None:
                raise ValueError('could not convert string to float: %r' % x)
            return v.p if v.__class__ is SInt else (v if v.__class__ is Poly else float(v))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return vfloat(x.reshape(-1)[0])
        return float(x)


class vfloat(metaclass=_FloatMeta):
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or x.__class__ is SInt

    def __subclasscheck__(cls, c):
        return issubclass(c, int) or c is SInt

    def __eq__(cls, o):
        return o is int or o is vint

    def __hash__(cls):
        return hash(int)

    def __call__(cls, x=0, *a):
        c = x.__class__
        if c is Poly:
            return dom.fptosi(x)
        if c is SInt:
            return x
        if isinstance(x, str) and '@' in x:
            v = Tokens.table.get(x.strip())
            if v is None or v.__class__ is Poly:
                raise ValueError('invalid literal for int(): %r' % x)
            return v
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return vint(x.reshape(-1)[0])
        return int(x, *a)


class vint(metaclass=_IntMeta):
    pass


def vround(x, n=None):
    if issym(x):
        return x.__round__(n) if x.__class__ is Poly else x
    return round(x, n) if n is not None else round(x)


def vabs(x):
    return abs(x)


def vsum(xs, start=0):
    for x in xs:
        start = start + x
    return start


# ------------------------------------------------------------------ numpy
def tof(v):
    """domain value -> what numpy code would hold"""
    if v.__class__ is Poly or v.__class__ is SInt:
        return v
    if v.__class__ is Cond or v.__class__ is SymComplex:
        return v
    return float(v)


def elem(f, g):
    """numpy ufunc g, symbolic element function f"""
    def h(x, *a, **k):
        if issym(x) or x.__class__ is Fraction:
            return tof(f(x))
        if isinstance(x, (list, tuple)) and hassym(x):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i, y in np.ndenumerate(x):
                out[i] = tof(f(y)) if issym(y) else float(g(y))
            return out
        return g(x, *a, **k)
    return h


def asobj(x):
    return x if isinstance(x, np.ndarray) else np.array(x, dtype=object if hassym(x) else None)


def fixdtype(d):
    if d is vfloat:
        return float
    if d is vint:
        return int
    return d


def np_array(x, dtype=None, *a, **k):
    dtype = fixdtype(dtype)
    if hassym(x):
        return np.array(x, dtype=object)
    return np.array(x, dtype, *a, **k) if dtype is not None else np.array(x, *a, **k)


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, np.ndarray) and (dtype is None or x.dtype == object and hassym(x)):
        return x
    return np_array(x, dtype, *a, **k)


def filled(v):
    def f(shape, dtype=float, *a, **k):
        d = fixdtype(dtype)
        out = np.empty(shape if not isinstance(shape, SInt) else int(shape), dtype=object)
        try:
            kind = np.dtype(d).kind
        except TypeError:
            kind = 'f'
        if kind not in 'fiu':
            return {0: np.zeros, 1: np.ones}[v](shape, d)
        x = float(v) if kind == 'f' else int(v)
        for i in np.ndindex(out.shape):
            out[i] = x
        return out
    return f


def norm(x, ord=None, axis=None, keepdims=False):
    x = asobj(x)
    if not hassym(x):
        if x.dtype == object:
            x = x.astype(float)
        return np.linalg.norm(x, ord, axis, keepdims)
    if ord not in (None, 2):
        raise Unsupported('norm order')
    if axis is not None:
        if x.ndim != 2:
            raise Unsupported('norm of higher rank array')
        rows = x if axis in (1, -1) else x.T
        return np.array([norm(r) for r in rows], dtype=object)
    s = 0
    for y in x.flat:
        y = const(y) if y.__class__ is float else y
        s = s + y * y
    return tof(dom.fsqrt(s))


def exact(y):
    if issym(y):
        return y.p if y.__class__ is SInt else y
    v = const(y)
    return v if v is not None else y


def inv(m):
    m = asobj(m)
    if not hassym(m):
        return np.linalg.inv(m.astype(float) if m.dtype == object else m)
    if m.shape != (3, 3):
        raise Unsupported('inverse of a %r matrix' % (m.shape,))
    a = [[exact(m[i, j]) for j in range(3)] for i in range(3)]
    d = det3(a)
    if d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            r = [k for k in range(3) if k != j]
            c = [k for k in range(3) if k != i]
            cof = a[r[0]][c[0]] * a[r[1]][c[1]] - a[r[0]][c[1]] * a[r[1]][c[0]]
            out[i, j] = tof(dom.fdiv(cof if (i + j) % 2 == 0 else -cof, d))
    return out


def det3(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def det(m):
    m = asobj(m)
    if not hassym(m):
        return np.linalg.det(m.astype(float) if m.dtype == object else m)
    return tof(det3([[exact(m[i, j]) for j in range(3)] for i in range(3)]))


def solve(a, b):
    a = asobj(a)
    b = asobj(b)
    if not hassym(a) and not hassym(b):
        return np.linalg.solve(a, b)
    return np.dot(inv(a), b)


def lt(a, b):
    return bool(a < b)


class Key:
    __slots__ = ('v', 'i')

    def __init__(self, v, i=0):
        self.v, self.i = v, i

    def __lt__(self, o):
        return bool(self.v < o.v)


def np_sort(x, *a, **k):
    x = asobj(x)
    if not hassym(x):
        return np.sort(x, *a, **k)
    return np.array([q.v for q in sorted(Key(v) for v in x)], dtype=object)


def np_argsort(x, *a, **k):
    x = asobj(x)
    if not hassym(x):
        return np.argsort(x, *a, **k)
    if x.ndim != 1:
        raise Unsupported('argsort of rank %d' % x.ndim)
    return np.array([q.i for q in sorted(Key(v, i) for i, v in enumerate(x))], dtype=int)


def np_unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    x = asobj(x)
    if not hassym(x):
        return np.unique(x, return_index, return_inverse, return_counts, axis)
    if axis is not None:
        raise Unsupported('unique with axis')
    xs = list(x.flat)
    order = sorted(Key(v, i) for i, v in enumerate(xs))
    vals, idx, cnt = [], [], []
    inverse = [0] * len(xs)
    for q in order:
        if vals and bool(vals[-1] == q.v):
            cnt[-1] += 1
        else:
            vals.append(q.v)
            idx.append(q.i)
            cnt.append(1)
        inverse[q.i] = len(vals) - 1
    v = np.array(vals, dtype=object)
    out = [v]
    if return_index:
        out.append(np.array(idx))
    if return_inverse:
        out.append(np.array(inverse))
    if return_counts:
        out.append(np.array(cnt))
    return v if len(out) == 1 else tuple(out)


def np_histogram(a, bins=10, range=None, density=None, weights=None):
    a = asobj(a)
    if not hassym(a) and not hassym(bins) and not hassym(range):
        if a.dtype == object:
            a = a.astype(float)
        return np.histogram(a, bins=bins, range=range, density=density, weights=weights)
    if weights is not None or density:
        raise Unsupported('weighted histogram')
    xs = [exact(v) for v in a.flat]
    if np.ndim(bins) == 0:
        n = int(bins)
        if range is None:
            lo, hi = (vmin(xs), vmax(xs)) if xs else (0, 1)
        else:
            lo, hi = exact(range[0]), exact(range[1])
        if lo == hi:
            lo, hi = lo - Fraction(1, 2), hi + Fraction(1, 2)
        if hi < lo:
            raise ValueError('max must be larger than min in range parameter.')
        edges = [lo + dom.fdiv((hi - lo) * i, n) for i in builtins.range(n)] + [hi]
    else:
        edges = [exact(v) for v in bins]
        n = len(edges) - 1
    counts = [0] * n
    for v in xs:
        if v < edges[0] or v > edges[n]:
            continue
        l, h = 0, n - 1
        while l < h:
            m = (l + h + 1) // 2
            if v >= edges[m]:
                l = m
            else:
                h = m - 1
        counts[l] += 1
    return np.array(counts), np.array([tof(e) for e in edges], dtype=object if hassym(edges) else None)


def vmin(xs):
    m = None
    for x in xs:
        if m is None or x < m:
            m = x
    return m


def vmax(xs):
    m = None
    for x in xs:
        if m is None or x > m:
            m = x
    return m


def reducer(name, f):
    g = getattr(np, name)

    def h(x, axis=None, *a, **k):
        if hassym(x):
            x = asobj(x)
            if axis is None:
                return f(list(x.flat))
            if x.ndim == 2:
                rows = x if axis in (1, -1) else x.T
                return np.array([f(list(r)) for r in rows], dtype=object)
            if x.ndim == 1:
                return f(list(x))
            raise Unsupported(name + ' of higher rank')
        if isinstance(x, np.ndarray) and x.dtype == object and x.size and name in ('std', 'var', 'median'):
            x = x.astype(float)
        return g(x, axis, *a, **k)
    return h


def mean(xs):
    return tof(dom.fdiv(exact(vsum(xs)), len(xs)))


def var(xs):
    m = mean(xs)
    return tof(dom.fdiv(vsum([(x - m) * (x - m) for x in xs]), len(xs)))


def argbest(xs, better):
    b = 0
    for i in range(1, len(xs)):
        if better(xs[i], xs[b]):
            b = i
    return b


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if hassym(a) or hassym(b):
        a, b = np.broadcast_arrays(asobj(a), asobj(b))
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(a.shape):
            out[i] = bool(abs(exact(a[i]) - exact(b[i])) <= exact(atol) + exact(rtol) * abs(exact(b[i])))
        return out if out.shape else bool(out[()])
    return np.isclose(a, b, rtol, atol, **k)


def np_where(c, *a):
    c = asobj(c)
    if hassym(c) or c.dtype == object:
        c = np.array([bool(x) for x in c.flat]).reshape(c.shape)
    return np.where(c, *a)


def np_all(x, *a, **k):
    x = asobj(x)
    if x.dtype == object and not a and not k:
        return builtins.all(bool(v) for v in x.flat)
    return np.all(x, *a, **k)


def np_any(x, *a, **k):
    x = asobj(x)
    if x.dtype == object and not a and not k:
        return builtins.any(bool(v) for v in x.flat)
    return np.any(x, *a, **k)


def np_round(x, decimals=0, *a, **k):
    if issym(x):
        return x.__round__(decimals) if x.__class__ is Poly else x
    if hassym(x):
        x = asobj(x)
        out = np.empty(x.shape, dtype=object)
        for i, y in np.ndenumerate(x):
            out[i] = vround(y, decimals)
        return out
    if isinstance(x, np.ndarray) and x.dtype == object:
        x = x.astype(float)
    return np.round(x, decimals, *a, **k)


def np_loadtxt(f, dtype=float, *a, **k):
    if isinstance(f, (list, tuple)) and any('@' in str(l) for l in f):
        if a or set(k) - {'unpack', 'usecols', 'delimiter', 'ndmin'}:
            raise Unsupported('loadtxt options')
        rows = []
        for l in f:
            if isinstance(l, bytes):
                l = l.decode()
            l = l.split('#')[0].split(k.get('delimiter'))
            if l:
                if fixdtype(dtype) is str or np.dtype(fixdtype(dtype)).kind in 'US':
                    rows.append(l)
                else:
                    rows.append([vfloat(w) for w in l])
        if k.get('usecols') is not None:
            u = k['usecols']
            rows = [[r[c] for c in (u if np.ndim(u) else [u])] for r in rows]
        out = np.array(rows, dtype=object)
        nd = k.get('ndmin', 0)
        if nd < 2 and out.ndim == 2:
            if out.shape[1] == 1:
                out = out[:, 0]
            elif out.shape[0] == 1:
                out = out[0]
        if k.get('unpack'):
            out = out.T
        return out
    return np.loadtxt(f, fixdtype(dtype), *a, **k)


def np_cross(a, b, *x, **k):
    a, b = asobj(a), asobj(b)
    if (hassym(a) or hassym(b) or a.dtype == object or b.dtype == object) and a.ndim == 1 and b.ndim == 1 and len(a) == len(b) == 3:
        return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)
    return np.cross(a, b, *x, **k)


def np_isnan(x):
    return elem_bool(x, lambda v: False, np.isnan)


def elem_bool(x, f, g):
    if issym(x):
        return f(x)
    if isinstance(x, (list, tuple)) and hassym(x):
        x = asobj(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([f(v) if issym(v) else bool(g(v)) for v in x.flat]).reshape(x.shape)
    return g(x)


def np_allclose(a, b, *x, **k):
    return bool(np.all(isclose(a, b, *x, **k)))


def np_array_equal(a, b):
    a, b = asobj(a), asobj(b)
    if hassym(a) or hassym(b):
        return a.shape == b.shape and builtins.all(bool(x == y) for x, y in zip(a.flat, b.flat))
    return np.array_equal(a, b)


def np_maximum(a, b, *x, **k):
    return pairwise(a, b, lambda u, v: v if u < v else u, np.maximum)


def np_minimum(a, b, *x, **k):
    return pairwise(a, b, lambda u, v: u if u < v else v, np.minimum)


def pairwise(a, b, f, g):
    if hassym(a) or hassym(b):
        a, b = np.broadcast_arrays(asobj(a), asobj(b))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i], b[i])
        return out if out.shape else out[()]
    return g(a, b)


def np_clip(x, lo, hi, **k):
    return np_minimum(np_maximum(x, lo), hi)


def np_linspace(a, b, num=50, *x, **k):
    if hassym(a) or hassym(b):
        n = int(num)
        return np.array([a + (b - a) * Fraction(i, n - 1) for i in range(n)], dtype=object)
    return np.linspace(a, b, num, *x, **k)


def np_arange(*a, **k):
    if any(x.__class__ is SInt for x in a):
        a = [int(x) if x.__class__ is SInt else x for x in a]
    return np.arange(*a, **k)


class Proxy(types.ModuleType):
    def __init__(self, name, real, over):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        for k, v in over.items():
            self.__dict__[k] = v

    def __getattr__(self, k):
        return getattr(self._real, k)


def sgn(x):
    return 1 if x > 0 else (-1 if x < 0 else 0)


LINALG = {'norm': norm, 'inv': inv, 'det': det, 'solve': solve}
UF = {
    'sqrt': (dom.fsqrt, np.sqrt), 'cos': (dom.fcos, np.cos), 'sin': (dom.fsin, np.sin), 'tan': (dom.ftan, np.tan),
    'exp': (dom.fexp, np.exp), 'log': (dom.flog, np.log), 'arccos': (dom.facos, np.arccos), 'arcsin': (dom.fasin, np.arcsin),
    'floor': (dom.ffloor, np.floor), 'ceil': (dom.fceil, np.ceil), 'trunc': (dom.ftrunc, np.trunc), 'cbrt': (dom.fcbrt, np.cbrt),
    'abs': (abs, np.abs), 'absolute': (abs, np.abs), 'fabs': (abs, np.fabs), 'rint': (dom.fround, np.rint), 'sign': (sgn, np.sign),
    'square': (lambda x: x * x, np.square),
    'degrees': (lambda x: x * Fraction(180 / real_math.pi), np.degrees), 'radians': (lambda x: x * Fraction(real_math.pi / 180), np.radians),
}
OVER = {
    'array': np_array, 'asarray': np_asarray, 'zeros': filled(0), 'ones': filled(1), 'empty': filled(0),
    'sort': np_sort, 'argsort': np_argsort, 'unique': np_unique, 'histogram': np_histogram, 'isclose': isclose, 'allclose': np_allclose,
    'array_equal': np_array_equal, 'maximum': np_maximum, 'minimum': np_minimum, 'clip': np_clip,
    'where': np_where, 'all': np_all, 'any': np_any, 'round': np_round, 'around': np_round, 'loadtxt': np_loadtxt, 'cross': np_cross,
    'isnan': np_isnan, 'isfinite': lambda x: elem_bool(x, lambda v: True, np.isfinite), 'isinf': lambda x: elem_bool(x, lambda v: False, np.isinf),
    'min': reducer('min', vmin), 'max': reducer('max', vmax), 'amin': reducer('min', vmin), 'amax': reducer('max', vmax),
    'sum': reducer('sum', vsum), 'mean': reducer('mean', mean), 'var': reducer('var', var), 'average': reducer('mean', mean),
    'std': reducer('std', lambda xs: tof(dom.fsqrt(exact(var(xs))))),
    'prod': reducer('prod', lambda xs: real_math.prod(xs)),
    'argmin': lambda x, *a, **k: argbest(list(asobj(x)), lambda u, v: u < v) if hassym(x) else np.argmin(x, *a, **k),
    'argmax': lambda x, *a, **k: argbest(list(asobj(x)), lambda u, v: u > v) if hassym(x) else np.argmax(x, *a, **k),
    'linspace': np_linspace, 'arange': np_arange, 'power': lambda a, b: a ** b,
    'arctan2': lambda y, x: tof(dom.fatan2(exact(y), exact(x))) if issym(y) or issym(x) else np.arctan2(y, x),
    'hypot': lambda a, b: tof(dom.fhypot(exact(a), exact(b))) if issym(a) or issym(b) else np.hypot(a, b),
    'float64': vfloat, 'isreal': lambda x: np.isreal(x),
}
for _k, (_f, _g) in UF.items():
    OVER[_k] = elem(_f, _g)


def make_numpy():
    p = Proxy('numpy', np, OVER)
    p.__dict__['linalg'] = Proxy('numpy.linalg', np.linalg, LINALG)
    p.__dict__['random'] = Proxy('numpy.random', np.random, {})
    return p


def fl(f, g):
    return lambda x: tof(f(x)) if issym(x) else g(x)


def make_math():
    m = real_math
    over = {n: fl(f, getattr(m, n)) for n, f in (('sqrt', dom.fsqrt), ('cos', dom.fcos), ('sin', dom.fsin), ('tan', dom.ftan),
                                                ('acos', dom.facos), ('asin', dom.fasin), ('exp', dom.fexp), ('log', dom.flog),
                                                ('fabs', dom.fabs))}
    over['floor'] = lambda x: dom.int_of(dom.ffloor(x)) if issym(x) else m.floor(x)
    over['ceil'] = lambda x: dom.int_of(dom.fceil(x)) if issym(x) else m.ceil(x)
    over['pow'] = lambda a, b: a ** b
    over['atan2'] = lambda y, x: tof(dom.fatan2(exact(y), exact(x))) if issym(y) or issym(x) else m.atan2(y, x)
    over['isclose'] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(a - b) <= vmax([rel_tol * vmax([abs(a), abs(b)]), abs_tol])) \
        if issym(a) or issym(b) else m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    over['isnan'] = lambda x: False if issym(x) else m.isnan(x)
    return Proxy('math', m, over)


# ------------------------------------------------------------------ loading
class ModRewrite(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__vmod__', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name('__vpow__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'astype':
            return ast.copy_location(ast.Call(ast.Name('__vastype__', ast.Load()), [n.func.value] + n.args, n.keywords), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name('__vmod__', ast.Load()),
                                     [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n


class Sources:
    """compiled code objects of every pyscal Python file"""

    def __init__(self, src):
        self.code = {}
        for root, dirs, files in os.walk(src):
            dirs[:] = [d for d in dirs if d != '__pycache__']
            for f in files:
                if f.endswith('.py'):
                    path = os.path.join(root, f)
                    rel = os.path.relpath(path, src)[:-3].replace(os.sep, '.')
                    pkg = rel == '__init__' or rel.endswith('.__init__')
                    name = 'pyscal' if rel == '__init__' else 'pyscal.' + (rel[:-9] if pkg else rel)
                    tree = ast.parse(open(path).read(), path)
                    tree = ast.fix_missing_locations(ModRewrite().visit(tree))
                    self.code[name] = (compile(tree, path, 'exec'), pkg)


class Package:
    """one fresh import of the pyscal package"""

    def __init__(self, sources, ext, stubs=None):
        self.src = sources
        self.mods = {}
        self.ext = ext
        self.stubs = {'numpy': make_numpy(), 'math': make_math()}
        if stubs:
            self.stubs.update(stubs)
        b = dict(builtins.__dict__)
        b['__import__'] = self.imp
        b['float'] = vfloat
        b['int'] = vint
        b['round'] = vround
        self.builtins = b

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = name.rpartition('.')[0]
        if parent and parent not in self.mods and parent != 'pyscal':
            self.load(parent)
        base = name.rpartition('.')[2]
        if name in ('pyscal.' + k for k in self.ext):
            m = self.ext[base]
        elif name in self.src.code:
            code, pkg = self.src.code[name]
            m = types.ModuleType(name)
            m.__file__ = code.co_filename
            m.__package__ = name if pkg else parent
            if pkg:
                m.__path__ = []
            m.__dict__['__builtins__'] = self.builtins
            m.__dict__['__vmod__'] = vmod
            m.__dict__['__vpow__'] = vpow
            m.__dict__['__vastype__'] = vastype
            self.mods[name] = m
            if parent in self.mods:
                setattr(self.mods[parent], base, m)
            try:
                exec(code, m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        else:
            raise ModuleNotFoundError("No module named '%s'" % name)
        self.mods[name] = m
        if parent in self.mods:
            setattr(self.mods[parent], base, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals.get('__package__') or 'pyscal'
            for _ in range(level - 1):
                pk = pk.rpartition('.')[0]
            name = pk + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'pyscal':
            if name == 'pyscal':
                m = self.mods.get('pyscal')
                if m is None:
                    m = types.ModuleType('pyscal')
                    m.__path__ = []
                    self.mods['pyscal'] = m
                    if fromlist and any(x in ('System', 'Atom', 'Trajectory') for x in fromlist):
                        code, _ = self.src.code['pyscal']
                        m.__dict__['__builtins__'] = self.builtins
                        m.__dict__['__vmod__'] = vmod
                        m.__dict__['__vpow__'] = vpow
                        m.__dict__['__vastype__'] = vastype
                        m.__package__ = 'pyscal'
                        exec(code, m.__dict__)
            else:
                self.imp('pyscal')
                m = self.load(name)
            if not fromlist:
                return self.mods['pyscal']
            for x in fromlist:
                if not hasattr(m, x):
                    sub = m.__name__ + '.' + x
                    if sub in self.src.code or x in self.ext and m.__name__ == 'pyscal':
                        setattr(m, x, self.load(sub))
            return m
        if name in self.stubs:
            return self.stubs[name]
        if top in self.stubs and not fromlist:
            return self.stubs[top]
        if name == 'numpy.linalg':
            return self.stubs['numpy'].linalg
        return builtins.__import__(name, globals, locals, fromlist, level)
