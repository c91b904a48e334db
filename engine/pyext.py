"""Python face of the executed C++: classes with the behaviour of the pybind11 ones.

The class tables are produced by executing the PYBIND11_MODULE bodies of the real
binding sources; each bound call runs the real C++ function's IR."""
import numbers
import types
from fractions import Fraction

import numpy as np

from . import dom, rt
from .dom import Poly, SInt, Cond, UNDEF, Unsupported, const
from .rt import Obj, Ptr, NULL, LD64, LD32, LDN, ST64, ST32, STN, memcpy, MemErr


class Refuse(Exception):
    """argument does not convert"""


class SymComplex:
    __slots__ = ('real', 'imag')

    def __init__(self, re, im):
        self.real, self.imag = re, im

    def _o(self, o):
        if isinstance(o, (SymComplex, complex, np.complexfloating)):
            return o.real, o.imag
        return o, 0

    def __add__(self, o):
        a, b = self._o(o)
        return SymComplex(self.real + a, self.imag + b)
    __radd__ = __add__

    def __sub__(self, o):
        a, b = self._o(o)
        return SymComplex(self.real - a, self.imag - b)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __mul__(self, o):
        a, b = self._o(o)
        return SymComplex(self.real * a - self.imag * b, self.real * b + self.imag * a)
    __rmul__ = __mul__

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    def __abs__(self):
        return dom.fsqrt(self.real * self.real + self.imag * self.imag)


class Ty:
    __slots__ = ('kind', 'size', 'aux', 'tag', 'sub')

    def __init__(self, kind, size, aux, tag):
        self.kind, self.size, self.aux, self.tag = kind, size, aux, tag
        self.sub = []

    def nsub(self):
        return {'vec': 1, 'arr': 1, 'pair': 2, 'ptr': 1}.get(self.kind, 0)

    def sizeof(self):
        k = self.kind
        if k == 'vec':
            return 24
        if k == 'arr':
            return self.aux * self.sub[0].sizeof()
        if k == 'pair':
            return -(-(self.aux + self.sub[1].sizeof()) // 8) * 8
        return max(self.size, 1)

    def __repr__(self):
        return self.kind + (repr(self.sub) if self.sub else '')


class Method:
    __slots__ = ('tag', 'name', 'kind', 'thunk', 'holder', 'nargs', 'ret', 'args', 'names')


class Registry:
    def __init__(self, prog):
        self.prog = prog
        self.classes = {}        # tag key -> dict(name,size,methods)
        self.order = []
        self.attrs = {}
        self.functions = []
        self.stack = []          # open Ty's to fill
        self.cur = None
        self.want = 0

    # hooks -------------------------------------------------------------
    def hooks(self):
        return {'__pyshim_type': self.h_type, '__pyshim_class': self.h_class, '__pyshim_method': self.h_method,
                '__pyshim_arg': self.h_arg, '__pyshim_attr': self.h_attr, '__pyshim_dict_new': lambda: {}}

    @staticmethod
    def key(p):
        p = rt.toptr(p)
        return (id(p.o), p.f) if p else None

    def h_class(self, name, size, tag, base):
        self.classes[self.key(tag)] = {'name': rt.getstr(name), 'size': size, 'methods': [], 'base': self.key(base), 'keep': tag}
        self.order.append(self.key(tag))

    def h_method(self, tag, name, kind, thunk, holder, nargs):
        m = Method()
        m.tag, m.name, m.kind, m.thunk, m.holder, m.nargs = self.key(tag), rt.getstr(name), rt.getstr(kind), thunk, rt.toptr(holder), nargs
        m.ret = None
        m.args = []
        m.names = []
        self.cur = m
        if m.tag is None:
            self.functions.append(m)
        else:
            self.classes[m.tag]['methods'].append(m)
        self.want = 1 + nargs
        self.deft = None

    def h_arg(self, name, d):
        d = rt.toptr(d)
        self.cur.names.append([rt.getstr(name), d if d else None, None])
        if d:
            self.want = 1
            self.deft = self.cur.names[-1]

    def h_attr(self, name, value):
        self.attrs[rt.getstr(name)] = rt.getstr(value)

    def h_type(self, kind, size, aux, tag):
        t = Ty(rt.getstr(kind), size, aux, self.key(tag))
        if self.stack:
            self.stack[-1].sub.append(t)
        else:
            self.top = t
        if t.nsub():
            self.stack.append(t)
        while self.stack and len(self.stack[-1].sub) == self.stack[-1].nsub():
            self.stack.pop()
        if not self.stack:
            top = self.top
            if self.deft is not None:
                self.deft[2] = top
                self.deft = None
            elif self.cur.ret is None:
                self.cur.ret = top
            else:
                self.cur.args.append(top)


# ---------------------------------------------------------------- conversions
def topy_float(v):
    if v.__class__ is Poly:
        return v
    if v is UNDEF:
        return dom.materialise()
    return float(v)


def topy_int(v):
    if v is UNDEF:
        return SInt.mk(dom.materialise_int())
    if v.__class__ is bool:
        return int(v)
    return v


def is_intlike(x):
    return isinstance(x, (int, np.integer)) or x.__class__ is SInt


class Conv:
    def __init__(self, reg, classes):
        self.reg = reg
        self.classes = classes       # tag -> python class

    # C++ value at (o,f) -> Python
    def load(self, t, o, f):
        k = t.kind
        if k == 'f64':
            return topy_float(LD64(o, f, 'd'))
        if k == 'int':
            if t.size == 4:
                v = LD32(o, f)
            elif t.size == 8:
                v = LD64(o, f, 'i')
            else:
                v = LDN(o, f, t.size)
            v = topy_int(v)
            if not t.aux and v.__class__ is int and v < 0:
                v += 1 << (8 * t.size)
            return v
        if k == 'bool':
            v = LDN(o, f, 1)
            if v is UNDEF:
                return bool(dom.materialise() > 0)
            return bool(v)
        if k == 'vec':
            b, e = LD64(o, f, 'p'), LD64(o, f + 8, 'p')
            n = (e - b) if b else 0
            s = t.size
            n //= s
            el = t.sub[0]
            return [self.load(el, b.o, b.f + i * s) for i in range(n)]
        if k == 'arr':
            s = t.sub[0].sizeof()
            return [self.load(t.sub[0], o, f + i * s) for i in range(t.aux)]
        if k == 'pair':
            return (self.load(t.sub[0], o, f), self.load(t.sub[1], o, f + t.aux))
        if k == 'cls':
            cls = self.classes[t.tag]
            x = cls.__new__(cls)
            n = t.size
            p = Ptr(Obj(n, cls.__name__))
            memcpy(p, Ptr(o, f), n)
            x._p = p
            return x
        if k == 'pyobj':
            v = LD64(o, f, 'p')
            return v
        if k == 'c64':
            re, im = LD64(o, f, 'd'), LD64(o, f + 8, 'd')
            if re is UNDEF:
                re = dom.materialise()
            if im is UNDEF:
                im = dom.materialise()
            if re.__class__ is Poly or im.__class__ is Poly:
                return SymComplex(re, im)
            return complex(float(re), float(im))
        if k == 'str':
            p, n = LD64(o, f, 'p'), LD64(o, f + 8, 'i')
            return bytes(b & 255 for b in rt.get_bytes(p.o, p.f, n)).decode() if n else ''
        if k == 'f32':
            return topy_float(LD32(o, f))
        if k == 'void':
            return None
        if k == 'ptr':
            p = LD64(o, f, 'p')
            if not p:
                return None
            el = t.sub[0]
            if el.kind == 'cls':
                cls = self.classes[el.tag]
                x = cls.__new__(cls)
                x._p = p
                return x
            return self.load(el, p.o, p.f)
        raise Unsupported('return type ' + k)

    # Python -> C++ value at (o,f)
    def store(self, t, o, f, x, convert):
        k = t.kind
        if k == 'f64' or k == 'f32':
            v = self.number(x, convert)
            if k == 'f64':
                ST64(o, f, v)
            else:
                ST32(o, f, v)
            return
        if k == 'int':
            if x.__class__ is Poly or isinstance(x, (float, np.floating, str, bytes)) or x is None:
                raise Refuse
            if x.__class__ is SInt:
                v = x
            elif x.__class__ is Cond:
                v = 1 if x else 0
            elif isinstance(x, (int, np.integer)):
                v = int(x)
            elif isinstance(x, np.bool_) and convert:
                v = int(x)
            elif hasattr(x, '__index__'):
                try:
                    v = int(x.__index__())
                except TypeError:
                    if not (convert and isinstance(x, np.ndarray) and x.size == 1):
                        raise Refuse
                    v = int(x.item())
            elif convert and hasattr(x, '__int__') and isinstance(x, (np.ndarray, Fraction)):
                v = int(x)
            else:
                raise Refuse
            bits = 8 * t.size
            if v.__class__ is int:
                lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if t.aux else (0, (1 << bits) - 1)
                if not lo <= v <= hi:
                    raise Refuse
                v = rt.W(v, bits)
            if t.size == 4:
                ST32(o, f, v)
            elif t.size == 8:
                ST64(o, f, v)
            else:
                STN(o, f, v, t.size)
            return
        if k == 'bool':
            if x is True or x is False or isinstance(x, np.bool_) or x.__class__ is Cond:
                v = bool(x)
            elif convert and x is None:
                v = False
            elif convert and hasattr(x, '__bool__'):
                v = bool(x)
            else:
                raise Refuse
            STN(o, f, int(v), 1)
            return
        if k == 'vec':
            if isinstance(x, (str, bytes)) or not (hasattr(x, '__len__') and hasattr(x, '__getitem__') or convert and hasattr(x, '__iter__')) \
                    or isinstance(x, dict):
                raise Refuse
            if isinstance(x, np.ndarray) and x.ndim == 0:
                raise Refuse
            xs = list(x)
            s = t.size
            b = Obj(len(xs) * s, 'heap vector[%d]' % len(xs))
            for i, y in enumerate(xs):
                self.store(t.sub[0], b, i * s, y, convert)
            if xs:
                ST64(o, f, Ptr(b, 0))
                ST64(o, f + 8, Ptr(b, len(xs) * s))
                ST64(o, f + 16, Ptr(b, len(xs) * s))
            else:
                for q in (0, 8, 16):
                    ST64(o, f + q, NULL)
            return
        if k == 'arr':
            if isinstance(x, (str, bytes)) or not hasattr(x, '__len__') or len(x) != t.aux:
                raise Refuse
            s = t.sub[0].sizeof()
            for i, y in enumerate(x):
                self.store(t.sub[0], o, f + i * s, y, convert)
            return
        if k == 'pair':
            if not hasattr(x, '__len__') or len(x) != 2:
                raise Refuse
            self.store(t.sub[0], o, f, x[0], convert)
            self.store(t.sub[1], o, f + t.aux, x[1], convert)
            return
        if k == 'cls':
            p = self.instance(t, x)
            memcpy(Ptr(o, f), p, t.size)
            return
        if k == 'pyobj':
            if not isinstance(x, dict):
                raise Refuse
            ST64(o, f, x)
            return
        if k == 'c64':
            if isinstance(x, (complex, SymComplex, np.complexfloating)):
                re, im = x.real, x.imag
            else:
                re, im = self.number(x, convert), 0
            ST64(o, f, const(re) if re.__class__ is not Poly else re)
            ST64(o, f + 8, const(im) if im.__class__ is not Poly else im)
            return
        if k == 'str':
            if not isinstance(x, (str, bytes)):
                raise Refuse
            b = x.encode() if isinstance(x, str) else x
            if len(b) < 16:
                ST64(o, f, Ptr(o, f + 16))
                rt.put_bytes(o, f + 16, list(b) + [0])
            else:
                h = Obj(len(b) + 1, 'heap string')
                rt.put_bytes(h, 0, list(b) + [0])
                ST64(o, f, Ptr(h))
                ST64(o, f + 16, len(b))
            ST64(o, f + 8, len(b))
            return
        raise Unsupported('argument type ' + k)

    def number(self, x, convert):
        c = x.__class__
        if c is Poly:
            return x
        if c is SInt:
            return x.p
        if c is Cond:
            return 1 if x else 0
        if isinstance(x, np.ndarray):
            if x.size != 1 or not convert:
                raise Refuse
            return self.number(x.reshape(-1)[0], convert)
        v = const(x)
        if v is None:
            if isinstance(x, np.bool_):
                return int(x)
            raise Refuse
        if v.__class__ is Fraction and isinstance(x, Fraction):
            v = const(float(v)) if not isinstance(x, numbers.Rational) else v
        return v

    def instance(self, t, x):
        cls = self.classes[t.tag]
        if not isinstance(x, cls):
            raise Refuse
        p = getattr(x, '_p', None)
        if p is None:
            raise TypeError('__init__() of %s was not called' % cls.__name__)
        return p

    # ------------------------------------------------------------------ calls
    def invoke(self, m, args, kwargs, convert, selfp=None, ctor=None):
        """args: python values for m.args (without the constructed object for 'init')"""
        ts = m.args
        vals = list(args)
        names = m.names
        skip = 1 if m.kind in ('method', 'getter', 'setter') else 0
        if len(vals) > len(ts):
            raise Refuse
        if len(vals) < len(ts) or kwargs:
            kwargs = dict(kwargs)
            for i in range(len(vals), len(ts)):
                j = i - skip
                if j < 0 or j >= len(names):
                    raise Refuse
                nm, d, dt = names[j]
                if nm and nm in kwargs:
                    vals.append(kwargs.pop(nm))
                elif d is not None:
                    vals.append(Default(d, dt))
                else:
                    raise Refuse
            if kwargs:
                raise Refuse
        frame = Obj(8 * max(len(ts), 1), 'args')
        for i, (t, x) in enumerate(zip(ts, vals)):
            if x.__class__ is Default:
                if x.t.kind == t.kind and (t.kind != 'int' or t.size == x.t.size):
                    ST64(frame, 8 * i, x.p)
                    continue
                x = self.load(x.t, x.p.o, x.p.f)
            if t.kind == 'cls' or t.kind == 'ptr' and t.sub[0].kind == 'cls':
                if t.kind == 'ptr':
                    if x is None:
                        ST64(frame, 8 * i, NULL)
                        continue
                    t = t.sub[0]
                ST64(frame, 8 * i, self.instance(t, x))
                continue
            o = Obj(t.sizeof(), 'arg')
            self.store(t, o, 0, x, convert)
            ST64(frame, 8 * i, Ptr(o))
        if ctor is not None:
            ret = ctor
        else:
            ret = Ptr(Obj(m.ret.sizeof(), 'ret'))
        try:
            m.thunk.o.fn(m.holder, Ptr(frame), ret)
        except rt.CxxThrow as e:
            raise rt.PYEXC.get(e.tname, RuntimeError)('C++ exception %s' % e.tname) from None
        if ctor is None:
            return self.load(m.ret, ret.o, 0)


class Default:
    __slots__ = ('p', 't')

    def __init__(self, p, t):
        self.p, self.t = p, t


def build_modules(reg, module_classes):
    """module_classes: {modname: [tag keys]} -> {modname: module object}"""
    classes = {}
    conv = Conv(reg, classes)

    def dispatcher(ms, owner, name, static=False):
        def call(*args, **kwargs):
            passes = (True,) if len(ms) == 1 else (False, True)
            for convert in passes:
                for m in ms:
                    try:
                        return conv.invoke(m, args, kwargs, convert)
                    except Refuse:
                        continue
            raise TypeError('%s(): incompatible function arguments: %s %s' % (
                name, ', '.join(type(a).__name__ for a in args), list(kwargs)))
        call.__name__ = name
        return staticmethod(call) if static else call

    def make_init(ms, size, cname):
        def __init__(self, *args, **kwargs):
            p = Ptr(Obj(size, cname))
            passes = (True,) if len(ms) == 1 else (False, True)
            for convert in passes:
                for m in ms:
                    try:
                        if m.kind == 'factory':
                            r = conv.invoke(m, args, kwargs, convert)
                            self._p = r._p
                        else:
                            conv.invoke(m, args, kwargs, convert, ctor=p)
                            self._p = p
                        return
                    except Refuse:
                        continue
            raise TypeError('%s.__init__(): incompatible constructor arguments' % cname)
        return __init__

    mods = {}
    for mod, tags in module_classes.items():
        mo = types.ModuleType('pyscal.' + mod)
        mods[mod] = mo
        for tag in tags:
            c = reg.classes[tag]
            ns = {'__slots__': ('_p', '__weakref__')}
            groups = {}
            for m in c['methods']:
                groups.setdefault((m.kind if m.kind not in ('init', 'factory') else 'init', m.name), []).append(m)
            inits = groups.pop(('init', '__init__'), None)
            if inits:
                ns['__init__'] = make_init(inits, c['size'], c['name'])
            else:
                def noinit(self, *a, **k):
                    raise TypeError('No constructor defined!')
                ns['__init__'] = noinit
            props = {}
            for (kind, name), ms in groups.items():
                if kind == 'method':
                    ns[name] = dispatcher(ms, c['name'], name)
                elif kind == 'static':
                    ns[name] = dispatcher(ms, c['name'], name, True)
                elif kind == 'getter':
                    props.setdefault(name, [None, None])[0] = dispatcher(ms[-1:], c['name'], name)
                elif kind == 'setter':
                    props.setdefault(name, [None, None])[1] = dispatcher(ms[-1:], c['name'], name)
            for name, (g, s) in props.items():
                ns[name] = property(g, s)
            base = (classes[c['base']],) if c['base'] in classes else (object,)
            cls = type(c['name'], base, ns)
            cls.__module__ = 'pyscal.' + mod
            classes[tag] = cls
            setattr(mo, c['name'], cls)
        for k, v in reg.attrs.items():
            setattr(mo, k, v)
    return mods, conv
