"""LLVM-IR functions -> Python functions over the numeric domain."""
from fractions import Fraction

from . import dom, rt
from .dom import Unsupported, UNDEF
from .irparse import Module, parse_body, PTR, F64, F32, VOID
from .rt import Obj, Ptr, NULL, CONT


class Program:
    def __init__(self, modules, hooks=None):
        self.mods = modules
        self.hooks = hooks or {}
        self.funcs = {}            # (global name) or (mod,name) -> Function
        self.fobj = {}
        self.gobj = {}
        self.pristine = {}
        self.encoded = set()
        self.instr_count = 0
        self.G = {
            'Ptr': Ptr, 'NULL': NULL, 'CONT': CONT, 'UNDEF': UNDEF, 'Obj': Obj, 'IX': rt.IX, 'AB': rt.AB,
            'LD64': rt.LD64, 'LD32': rt.LD32, 'LDN': rt.LDN, 'ST64': rt.ST64, 'ST32': rt.ST32, 'STN': rt.STN,
            'W32': rt.W32, 'W64': rt.W64, 'W': rt.W, 'sdiv': rt.sdiv, 'srem': rt.srem, 'udiv': rt.udiv, 'urem': rt.urem,
            'ult': rt.ult, 'ule': rt.ule, 'lshr': rt.lshr, 'shl': rt.shl, 'trunc': rt.trunc, 'zext': rt.zext, 'sext': rt.sext,
            'xor': rt.xor, 'and_': rt.and_, 'or_': rt.or_, 'uitofp': rt.uitofp, 'sitofp': rt.sitofp, 'fptosi': dom.fptosi,
            'fdiv': dom.fdiv, 'isnan': rt.isnan, 'fone': rt.fone, 'fueq': rt.fueq, 'toptr': rt.toptr, 'MemErr': rt.MemErr,
            'CxxThrow': rt.CxxThrow, 'memcpy': rt.memcpy, 'memset': rt.memset, 'Unsupported': Unsupported, 'EXC': rt.CURRENT_EXC,
            'fmod_': dom.fmod_, 'Fraction': Fraction,
        }
        self.names = {}
        self.consts = {}
        for m in modules:
            for n, f in m.functions.items():
                if 'internal' in f.linkage or 'private' in f.linkage:
                    self.funcs[(m.fname, n)] = f
                elif n not in self.funcs or 'available_externally' in self.funcs[n].linkage:
                    self.funcs[n] = f
        for m in modules:
            for a, target in m.aliases.items():
                self.names.setdefault(('alias', a), target)

    # ---------------------------------------------------------------- symbols
    def lookup(self, name, mod):
        f = self.funcs.get((mod.fname, name)) or self.funcs.get(name)
        if f is None and ('alias', name) in self.names:
            return self.lookup(self.names[('alias', name)], mod)
        return f

    def pyname(self, name, mod):
        """Python global bound to the function."""
        f = self.lookup(name, mod) if name not in self.hooks else None
        key = ('fn', id(f)) if f is not None else ('ext', name)
        if key in self.names:
            return self.names[key]
        n = 'f%d' % len(self.names)
        self.names[key] = n
        if f is None:
            h = self.hooks.get(name) or rt.EXT.get(name) or intrinsic(name)
            if h is None:
                def h(*a, _n=name):
                    raise Unsupported('external function %s' % _n)
            self.G[n] = h
        else:
            def stub(*a, _f=f, _n=n):
                self.G[_n] = self.compile(_f)
                return self.G[_n](*a)
            self.G[n] = stub
        return n

    def fnptr(self, name, mod):
        f = self.lookup(name, mod)
        key = id(f) if f is not None else name
        o = self.fobj.get(key)
        if o is None:
            o = Obj(1, 'function ' + name)
            pn = self.pyname(name, mod)
            G = self.G
            o.fn = lambda *a: G[pn](*a)
            self.fobj[key] = o
        return Ptr(o)

    def globptr(self, name, mod):
        if self.lookup(name, mod) is not None or name in mod.declared and name not in mod.globals:
            return self.fnptr(name, mod)
        # definition
        cand = None
        if name in mod.globals and mod.globals[name][1] is not None:
            cand = mod
        else:
            for m in self.mods:
                if name in m.globals and m.globals[name][1] is not None and not m.globals[name][2]:
                    cand = m
                    break
        key = (cand.fname if cand is not None and cand.globals[name][2] else '', name)
        o = self.gobj.get(key)
        if o is None:
            if cand is None:
                o = Obj(256, 'external ' + name)
                self.gobj[key] = o
            else:
                t, init, _ = cand.globals[name]
                o = Obj(max(self.size(t, cand), 1), 'global ' + name)
                self.gobj[key] = o
                self.init(o, 0, t, init, cand)
            self.pristine[key] = list(o.d)
        return Ptr(o)

    def init(self, o, off, t, v, mod):
        t = self.res(t, mod)
        if v[0] in ('zero',) or (v[0] == 'c' and v[1] == 0 and t[0] == 'i' and t[1] <= 8):
            n = self.size(t, mod)
            if n:
                rt.memset(Ptr(o, off), 0, n)
            return
        if v[0] == 'undef':
            return
        if v[0] == 'bytes':
            rt.put_bytes(o, off, list(v[1]))
            return
        if v[0] == 'agg':
            if t[0] == 'struct':
                offs = self.offsets(t, mod)
                for k, (tt, x) in enumerate(v[1]):
                    self.init(o, off + offs[k], tt, x, mod)
            else:
                s = self.size(t[2], mod)
                for k, (tt, x) in enumerate(v[1]):
                    self.init(o, off + k * s, tt, x, mod)
            return
        val = self.constval(v, t, mod)
        n = self.size(t, mod)
        if n == 8:
            rt.ST64(o, off, val)
        elif n == 4:
            rt.ST32(o, off, val)
        else:
            rt.STN(o, off, val, n)

    def constval(self, v, t, mod):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = self.res(t, mod)
            if t == PTR:
                return NULL
            if t[0] == 'struct':
                return tuple(self.constval(v, x, mod) for x in t[1])
            if t[0] in ('arr', 'vec'):
                return tuple(self.constval(v, t[2], mod) for _ in range(t[1]))
            return 0
        if k == 'g':
            return self.globptr(v[1], mod)
        if k == 'gep':
            base = self.constval(v[2][0][1], PTR, mod)
            off = 0
            t = v[1]
            for n, (it, iv) in enumerate(v[2][1:]):
                i = self.constval(iv, it, mod)
                if n == 0:
                    off += i * self.size(t, mod)
                else:
                    t = self.res(t, mod)
                    if t[0] == 'struct':
                        off += self.offsets(t, mod)[i]
                        t = t[1][i]
                    else:
                        t = t[2]
                        off += i * self.size(t, mod)
            return base + off
        if k == 'cast':
            return self.constval(v[3], v[2], mod)
        if k == 'cbin':
            a, b = self.constval(v[3], v[2], mod), self.constval(v[4], v[2], mod)
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                    'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b, 'ashr': lambda: a >> b}[v[1]]()
        if k == 'agg':
            return tuple(self.constval(x, tt, mod) for tt, x in v[1])
        raise Unsupported('constant %r' % (v,))

    # ---------------------------------------------------------------- layout
    def res(self, t, mod):
        while t[0] == 'named':
            r = mod.types.get(t[1])
            if r is None or r == ('opaque',):
                raise Unsupported('opaque type ' + t[1])
            t = r
        return t

    def size(self, t, mod):
        return self.layout(t, mod)[0]

    def offsets(self, t, mod):
        return self.layout(t, mod)[2]

    def layout(self, t, mod):
        key = (mod.fname, repr(t))
        r = self.consts.get(key)
        if r is None:
            r = self.consts[key] = self._layout(t, mod)
        return r

    def _layout(self, t, mod):
        """(size, align, offsets)"""
        t = self.res(t, mod)
        k = t[0]
        if k == 'i':
            n = 1
            while n * 8 < t[1]:
                n *= 2
            return n, n, None
        if k in ('f64', 'ptr'):
            return 8, 8, None
        if k == 'f32':
            return 4, 4, None
        if k == 'arr' or k == 'vec':
            s, a, _ = self.layout(t[2], mod)
            return s * t[1], (a if k == 'arr' else s * t[1]), None
        if k == 'struct':
            off = 0
            al = 1
            offs = []
            for x in t[1]:
                s, a, _ = self.layout(x, mod)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            return (off + al - 1) // al * al, al, offs
        if k == 'fn':
            return 1, 1, None
        raise Unsupported('layout of %r' % (t,))

    # ---------------------------------------------------------------- compile
    def compile(self, f):
        if f.code is None:
            src = FnGen(self, f).generate()
            loc = {}
            try:
                exec(compile(src, f.name, 'exec'), self.G, loc)
            except SyntaxError:
                open('/tmp/bad_codegen.py', 'w').write(src)
                raise
            f.code = loc['F']
            self.encoded.add(f.name)
        return f.code

    def call(self, name, *args):
        for m in self.mods:
            f = self.lookup(name, m)
            if f is not None:
                return self.G[self.pyname(name, m)](*args)
        raise Unsupported('no function ' + name)

    def run_ctors(self):
        for m in self.mods:
            for c in m.ctors:
                self.G[self.pyname(c, m)]()


def intrinsic(name):
    if not name.startswith('llvm.'):
        return None
    parts = name.split('.')
    b = parts[1]
    bits = 0
    for x in parts[2:]:
        if x[0] == 'i' and x[1:].isdigit():
            bits = int(x[1:])
            break
    none = lambda *a: None
    if b in ('lifetime', 'assume', 'experimental', 'dbg', 'stackrestore', 'prefetch', 'donothing', 'var', 'invariant', 'sideeffect'):
        return none
    if b == 'stacksave':
        return lambda: NULL
    if b in ('memcpy', 'memmove'):
        return lambda d, s, n, v=0: rt.memcpy(d, s, n)
    if b == 'memset':
        return lambda d, v, n, x=0: rt.memset(d, v, n)
    if b == 'umin':
        return lambda x, y: x if rt.ult(x, y, bits) else y
    if b == 'umax':
        return lambda x, y: y if rt.ult(x, y, bits) else x
    if b == 'smin':
        return lambda x, y: x if x < y else y
    if b == 'smax':
        return lambda x, y: y if x < y else x
    if b == 'abs':
        return lambda x, p=0: dom.fabs(x)
    if b == 'ctlz':
        return lambda x, p=0: rt.clz(x, bits)
    if b == 'cttz':
        return lambda x, p=0: rt.ctz(x, bits)
    if b == 'ctpop':
        return lambda x: bin(rt.U(rt.IX(x), bits)).count('1')
    if b in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
        return rt.sel_overflow(b[1:], bits, b[0] == 's') if parts[2] == 'with' else None
    if b in ('fshl', 'fshr'):
        def fsh(x, y, n):
            x, y, n = rt.U(rt.IX(x), bits), rt.U(rt.IX(y), bits), rt.IX(n) % bits
            w = (x << bits) | y
            r = (w >> (bits - n)) if b == 'fshl' else (w >> n)
            return rt.W(r & ((1 << bits) - 1), bits)
        return fsh
    if b in ('sqrt', 'sin', 'cos', 'exp', 'log', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'pow', 'copysign',
             'log10', 'log2', 'exp2', 'tan', 'acos', 'asin', 'atan2', 'roundeven'):
        return rt.EXT.get(b) or rt.EXT['rint']
    if b in ('minnum', 'minimum'):
        return rt.fmin
    if b in ('maxnum', 'maximum'):
        return rt.fmax
    if b in ('fma', 'fmuladd'):
        return lambda x, y, z: x * y + z
    if b == 'powi':
        return lambda x, n: dom.fpow(x, rt.IX(n))
    if b in ('lround', 'llround', 'lrint', 'llrint'):
        return rt.EXT['lround']
    if b == 'expect':
        return lambda x, *a: x
    if b == 'is' and parts[2] == 'fpclass':
        def fpc(x, m):
            if x.__class__ is float:
                if x != x:
                    return bool(m & 3)
                return bool(m & (0x200 if x > 0 else 0x4))
            if m & 0x1f8 == 0x1f8:
                return True
            if m & 0x1f8 == 0:
                return False
            raise Unsupported('is.fpclass %d' % m)
        return fpc
    if b == 'eh' and parts[2] == 'typeid':
        return lambda p: typeid(p)
    if b == 'trap' or b == 'debugtrap' or b == 'ubsantrap':
        def tr(*a):
            raise rt.MemErr('trap')
        return tr
    if b == 'objectsize':
        return lambda *a: -1
    if b == 'threadlocal':
        return lambda p: p
    return None


TYPEIDS = {}


def typeid(p):
    p = rt.toptr(p)
    return TYPEIDS.setdefault(id(p.o), (len(TYPEIDS) + 1, p))[0]


class FnGen:
    def __init__(self, prog, f):
        self.p = prog
        self.f = f
        self.mod = f.mod
        self.blocks = parse_body(f)
        self.out = []

    def ref(self, v, t):
        """Python expression for an operand"""
        k = v[0]
        if k == 'l':
            return self.var(v[1])
        if k == 'c':
            x = v[1]
            if x.__class__ is Fraction:
                return self.konst(x)
            if x.__class__ is float:
                return self.konst(x)
            return repr(x) if x >= 0 else '(%r)' % x
        if k == 'null':
            return 'NULL'
        if k == 'undef':
            return 'UNDEF'
        if k == 'zero' and self.p.res(t, self.mod)[0] in ('f64', 'i', 'f32'):
            return '0'
        return self.konst(self.p.constval(v, t, self.mod), v)

    def konst(self, x, v=None):
        key = ('k', repr(v), self.mod.fname) if v is not None else ('k', x.__class__, repr(x))
        n = self.p.names.get(key)
        if n is None:
            n = 'k%d' % len(self.p.names)
            self.p.names[key] = n
            self.p.G[n] = x
        return n

    VN = {}

    def var(self, name):
        return 'v' + name if name.isdigit() else 'w' + ''.join(c if c.isalnum() else '_%x_' % ord(c) for c in name)

    # -- analysis
    def analyse(self):
        self.defs = {}
        uses = {}
        succ = {}
        self.preds = {b: [] for b in self.blocks}
        for b, ins in self.blocks.items():
            for i in ins:
                if i.dst is not None:
                    self.defs[i.dst] = i
                for v in i.a or ():
                    if v[0] == 'l':
                        uses.setdefault(v[1], []).append((i, v))
                if i.op == 'gep':
                    for t, v in i.extra:
                        if v[0] == 'l':
                            uses.setdefault(v[1], []).append((i, None))
                elif i.op == 'call':
                    for t, v, at in i.extra:
                        if v[0] == 'l':
                            uses.setdefault(v[1], []).append((i, None))
                elif i.op == 'invoke':
                    for t, v, at in i.extra[0]:
                        if v[0] == 'l':
                            uses.setdefault(v[1], []).append((i, None))
                elif i.op == 'phi':
                    for v, lab in i.extra:
                        if v[0] == 'l':
                            uses.setdefault(v[1], []).append((i, None))
            t = ins[-1]
            for s in self.targets(t):
                self.preds[s].append(b)
        # fusable geps
        self.fus = set()
        changed = True
        geps = [i for i in self.defs.values() if i.op == 'gep']
        okset = {i.dst for i in geps}
        while changed:
            changed = False
            for i in geps:
                if i.dst not in okset:
                    continue
                for u, v in uses.get(i.dst, []):
                    good = (u.op == 'load') or (u.op == 'store' and u.a[1] == ('l', i.dst) and u.a[0] != ('l', i.dst)) or \
                           (u.op == 'gep' and u.dst in okset and v is not None)
                    if not good:
                        okset.discard(i.dst)
                        changed = True
                        break
        self.fus = okset

    def targets(self, t):
        if t.op == 'br':
            return t.extra
        if t.op == 'condbr':
            return list(dict.fromkeys(t.extra))
        if t.op == 'switch':
            return list(dict.fromkeys([t.extra[0]] + [l for c, l in t.extra[1]]))
        if t.op == 'invoke':
            return [t.extra[1], t.extra[2]]
        return []

    def generate(self):
        self.analyse()
        params = []
        pre = []
        for nm, t, at in self.f.params:
            params.append(self.var(nm))
            if 'byval' in at:
                n = self.p.size(at['byval'], self.mod)
                pre.append('o=Obj(%d,"byval");memcpy(Ptr(o),%s,%d);%s=Ptr(o)' % (n, self.var(nm), n, self.var(nm)))
        heads = {}
        entry = next(iter(self.blocks))
        for b in self.blocks:
            if b == entry or len(self.preds[b]) != 1:
                heads[b] = None
        # landing pads are reached from except handlers: make them heads
        for b, ins in self.blocks.items():
            if ins and any(i.op == 'landingpad' for i in ins[:4]):
                heads[b] = None
        self.heads = heads
        bodies = {}
        work = list(heads)
        done = set()
        while work:
            b = work.pop(0)
            if b in done:
                continue
            done.add(b)
            self.cur = []
            self.newheads = []
            self.emit_block(b, 0)
            bodies[b] = self.cur
            work += self.newheads
        order = [b for b in self.blocks if b in bodies]
        num = {b: k for k, b in enumerate(order)}
        lines = ['def F(%s):' % ', '.join(params)]
        for l in pre:
            lines.append('  ' + l)
        if len(order) == 1:
            for ind, l in bodies[order[0]]:
                lines.append('  ' + '  ' * ind + l)
        else:
            lines.append('  bb=%d' % num[entry])
            lines.append('  while True:')

            def tree(lo, hi, ind):
                if hi - lo == 1:
                    for k, l in bodies[order[lo]]:
                        if '@BB(' in l:
                            a = l.index('@BB(')
                            e = l.index(')@', a)
                            l = l[:a] + str(num[l[a + 4:e]]) + l[e + 2:]
                        lines.append(' ' * ind + ' ' * k + l)
                    return
                mid = (lo + hi) // 2
                lines.append(' ' * ind + 'if bb<%d:' % mid)
                tree(lo, mid, ind + 1)
                lines.append(' ' * ind + 'else:')
                tree(mid, hi, ind + 1)
            tree(0, len(order), 3)
        if self.f.vararg:
            lines[0] = lines[0][:-2] + (', ' if params else '') + '*va):'
        return '\n'.join(lines) + '\n'

    def w(self, ind, l):
        self.cur.append((ind, l))

    MAXDEPTH = 14

    def goto(self, frm, to, ind):
        # phi moves
        dst, src = [], []
        for i in self.blocks[to]:
            if i.op != 'phi':
                break
            for v, lab in i.extra:
                if lab == frm:
                    r = self.ref(v, i.ty)
                    d = self.var(i.dst)
                    if r != d:
                        dst.append(d)
                        src.append(r)
                    break
        if dst:
            self.w(ind, '%s=%s' % (','.join(dst), ','.join(src)))
        if to in self.heads:
            self.w(ind, 'bb=@BB(%s)@;continue' % to)
        elif ind >= self.MAXDEPTH:
            self.heads[to] = None
            self.newheads.append(to)
            self.w(ind, 'bb=@BB(%s)@;continue' % to)
        else:
            self.emit_block(to, ind)

    def emit_block(self, b, ind):
        for i in self.blocks[b]:
            if i.op == 'phi':
                continue
            self.instr(i, b, ind)

    def addr(self, v):
        """(base expr, const offset, [dynamic terms], checks)"""
        if v[0] == 'l' and v[1] in self.fus:
            i = self.defs[v[1]]
            base, c, dyn, chk = self.addr(i.a[0])
            c2, dyn2, chk2 = self.gepoff(i, True)
            return base, c + c2, dyn + dyn2, chk + chk2
        return self.ref(v, PTR), 0, [], []

    def gepoff(self, i, access):
        t = i.ty
        c = 0
        dyn = []
        chk = []
        for n, (it, iv) in enumerate(i.extra):
            if n == 0:
                s = self.p.size(t, self.mod)
                arr = None
            else:
                t = self.p.res(t, self.mod)
                if t[0] == 'struct':
                    k = iv[1]
                    c += self.p.offsets(t, self.mod)[k]
                    t = t[1][k]
                    continue
                arr = t[1]
                t = t[2]
                s = self.p.size(t, self.mod)
            if iv[0] == 'c':
                c += int(iv[1]) * s
                if arr and not 0 <= iv[1] <= arr:
                    chk.append('AB(%d,%d)' % (iv[1], arr))
            elif iv[0] in ('zero',):
                pass
            else:
                r = self.ref(iv, it)
                dyn.append((r, s))
                if arr:
                    chk.append('if not 0<=%s<%s%d:AB(%s,%d)' % (r, '' if access else '=', arr, r, arr))
        return c, dyn, chk

    def offexpr(self, base, c, dyn):
        e = base + '.f'
        if c:
            e += '+%d' % c if c > 0 else '%d' % c
        for r, s in dyn:
            e += '+%s*%d' % (r, s) if s != 1 else '+' + r
        return e

    def dynfix(self, dyn, ind):
        out = []
        for r, s in dyn:
            self.w(ind, 'if %s.__class__ is not int:%s=IX(%s)' % (r, r, r))

    def instr(self, i, b, ind):
        self.p.instr_count += 1
        op = i.op
        d = self.var(i.dst) if i.dst is not None else None
        w = self.w
        if op == 'load':
            base, c, dyn, chk = self.addr(i.a[0])
            self.dynfix(dyn, ind)
            for x in chk:
                w(ind, x)
            t = self.p.res(i.ty, self.mod)
            off = self.offexpr(base, c, dyn)
            n = self.p.size(t, self.mod)
            if t[0] in ('f64', 'ptr') or (t[0] == 'i' and n == 8):
                kind = {'f64': 'd', 'ptr': 'p', 'i': 'i'}[t[0]]
                w(ind, 'o=%s.o;i=%s' % (base, off))
                w(ind, '%s=D[i>>2] if 0<=i>>2<o.n and (D:=o.d)[(i>>2)+1] is CONT else LD64(o,i,%r)' % (d, kind))
                if kind == 'p':
                    w(ind, 'if %s.__class__ is not Ptr:%s=toptr(%s)' % (d, d, d))
            elif n == 4 and t[0] in ('i', 'f32'):
                w(ind, 'o=%s.o;i=(%s)>>2' % (base, off))
                w(ind, 'if not(0<=i<=o.n and (D:=o.d)[i+1] is not CONT and (%s:=D[i]).__class__ is int):%s=LD32(o,%s)' % (d, d, off))
            elif t[0] == 'i':
                w(ind, '%s=LDN(%s.o,%s,%d)' % (d, base, off, n))
            else:
                raise Unsupported('load of %r in %s' % (t, self.f.name))
            return
        if op == 'store':
            base, c, dyn, chk = self.addr(i.a[1])
            self.dynfix(dyn, ind)
            for x in chk:
                w(ind, x)
            t = self.p.res(i.ty, self.mod)
            off = self.offexpr(base, c, dyn)
            n = self.p.size(t, self.mod)
            v = self.ref(i.a[0], i.ty)
            if t[0] in ('f64', 'ptr') or (t[0] == 'i' and n == 8):
                w(ind, 'o=%s.o;i=(%s)>>2' % (base, off))
                w(ind, 'if 0<=i<o.n and (D:=o.d)[i] is not CONT and (D[i+1] is CONT or D[i+2] is not CONT):D[i]=%s;D[i+1]=CONT' % v)
                w(ind, 'else:ST64(o,%s,%s)' % (off, v))
            elif n == 4 and t[0] in ('i', 'f32'):
                w(ind, 'o=%s.o;i=(%s)>>2' % (base, off))
                w(ind, 'if 0<=i<=o.n and (D:=o.d)[i] is not CONT and D[i+1] is not CONT:D[i]=%s' % v)
                w(ind, 'else:ST32(o,%s,%s)' % (off, v))
            elif t[0] == 'i':
                w(ind, 'STN(%s.o,%s,%s,%d)' % (base, off, v, n))
            elif t[0] == 'struct':
                offs = self.p.offsets(t, self.mod)
                for k, tt in enumerate(t[1]):
                    s = self.p.size(tt, self.mod)
                    w(ind, '%s(%s.o,%s+%d,%s[%d]%s)' % ('ST64' if s == 8 else 'ST32' if s == 4 else 'STN', base, off, offs[k], v, k,
                                                       '' if s >= 4 else ',%d' % s))
            else:
                raise Unsupported('store of %r in %s' % (t, self.f.name))
            return
        if op == 'gep':
            if i.dst in self.fus:
                return
            base, c, dyn, chk = self.addr(i.a[0])
            c2, dyn2, chk2 = self.gepoff(i, False)
            dyn = dyn + dyn2
            self.dynfix(dyn, ind)
            for x in chk + chk2:
                w(ind, x)
            w(ind, '%s=Ptr(%s.o,%s)' % (d, base, self.offexpr(base, c + c2, dyn)))
            return
        if op in ('add', 'sub', 'mul'):
            a, c = self.ref(i.a[0], i.ty), self.ref(i.a[1], i.ty)
            e = '%s%s%s' % (a, {'add': '+', 'sub': '-', 'mul': '*'}[op], c)
            bits = i.ty[1]
            if bits == 1:
                w(ind, '%s=xor(%s,%s,1)' % (d, a, c))
            elif 'nsw' in i.extra and bits in (32, 64):
                w(ind, '%s=%s' % (d, e))
            elif bits == 32:
                w(ind, '%s=W32(%s)' % (d, e))
            elif bits == 64:
                w(ind, '%s=W64(%s)' % (d, e))
            else:
                w(ind, '%s=W(%s,%d)' % (d, e, bits))
            return
        if op in ('sdiv', 'srem', 'udiv', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, c = self.ref(i.a[0], i.ty), self.ref(i.a[1], i.ty)
            bits = i.ty[1]
            if op in ('sdiv', 'srem'):
                w(ind, '%s=%s(%s,%s)' % (d, op, a, c))
            elif op == 'ashr':
                w(ind, '%s=%s>>%s' % (d, a, c))
            elif op in ('and', 'or', 'xor'):
                w(ind, '%s=%s(%s,%s,%d)' % (d, op + ('_' if op != 'xor' else ''), a, c, bits))
            else:
                w(ind, '%s=%s(%s,%s,%d)' % (d, op, a, c, bits))
            return
        if op in ('fadd', 'fsub', 'fmul'):
            a, c = self.ref(i.a[0], i.ty), self.ref(i.a[1], i.ty)
            w(ind, '%s=%s%s%s' % (d, a, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], c))
            return
        if op == 'fdiv':
            w(ind, '%s=fdiv(%s,%s)' % (d, self.ref(i.a[0], i.ty), self.ref(i.a[1], i.ty)))
            return
        if op == 'frem':
            w(ind, '%s=fmod_(%s,%s)' % (d, self.ref(i.a[0], i.ty), self.ref(i.a[1], i.ty)))
            return
        if op == 'fneg':
            w(ind, '%s=-%s' % (d, self.ref(i.a[0], i.ty)))
            return
        if op == 'icmp':
            a, c = self.ref(i.a[0], i.ty), self.ref(i.a[1], i.ty)
            pr = i.extra
            t = self.p.res(i.ty, self.mod)
            bits = t[1] if t[0] == 'i' else 64
            if pr in ('eq', 'ne'):
                if bits == 1:
                    w(ind, '%s=xor(%s,%s,1)' % (d, a, c) if pr == 'ne' else '%s=not xor(%s,%s,1)' % (d, a, c))
                else:
                    w(ind, '%s=%s%s%s' % (d, a, '==' if pr == 'eq' else '!=', c))
            elif pr[0] == 's':
                w(ind, '%s=%s%s%s' % (d, a, {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pr], c))
            elif t == PTR:
                w(ind, '%s=%s%s%s' % (d, a, {'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pr], c))
            elif pr == 'ult':
                w(ind, '%s=ult(%s,%s,%d)' % (d, a, c, bits))
            elif pr == 'ugt':
                w(ind, '%s=ult(%s,%s,%d)' % (d, c, a, bits))
            elif pr == 'ule':
                w(ind, '%s=ule(%s,%s,%d)' % (d, a, c, bits))
            else:
                w(ind, '%s=ule(%s,%s,%d)' % (d, c, a, bits))
            return
        if op == 'fcmp':
            a, c = self.ref(i.a[0], i.ty), self.ref(i.a[1], i.ty)
            pr = i.extra
            e = {'oeq': '%s==%s', 'ogt': '%s>%s', 'oge': '%s>=%s', 'olt': '%s<%s', 'ole': '%s<=%s', 'une': '%s!=%s',
                 'ugt': 'not(%s<=%s)', 'uge': 'not(%s<%s)', 'ult': 'not(%s>=%s)', 'ule': 'not(%s>%s)',
                 'one': 'fone(%s,%s)', 'ueq': 'fueq(%s,%s)', 'ord': 'not(isnan(%s) or isnan(%s))',
                 'uno': '(isnan(%s) or isnan(%s))'}.get(pr)
            if pr in ('true', 'false'):
                e = 'True' if pr == 'true' else 'False'
            else:
                e = e % (a, c)
            w(ind, '%s=%s' % (d, e))
            return
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp'):
            v = self.ref(i.a[0], i.extra)
            fb = i.extra[1]
            if op == 'zext':
                w(ind, '%s=zext(%s,%d)' % (d, v, fb))
            elif op == 'sext':
                w(ind, '%s=%s' % (d, v) if fb > 1 else '%s=sext(%s,1)' % (d, v))
            elif op == 'trunc':
                w(ind, '%s=trunc(%s,%d)' % (d, v, i.ty[1]))
            elif op == 'sitofp':
                w(ind, '%s=%s if %s.__class__ is int else sitofp(%s)' % (d, v, v, v) if fb > 1 else '%s=-1 if %s else 0' % (d, v))
            else:
                w(ind, '%s=uitofp(%s,%d)' % (d, v, fb))
            return
        if op in ('fptosi', 'fptoui'):
            w(ind, '%s=fptosi(%s)' % (d, self.ref(i.a[0], i.extra)))
            return
        if op in ('fpext', 'fptrunc', 'ptrtoint', 'freeze', 'bitcast', 'addrspacecast'):
            t0 = i.extra if op != 'freeze' else i.ty
            if op == 'bitcast':
                raise Unsupported('bitcast in ' + self.f.name)
            w(ind, '%s=%s' % (d, self.ref(i.a[0], t0)))
            return
        if op == 'inttoptr':
            w(ind, '%s=toptr(%s)' % (d, self.ref(i.a[0], i.extra)))
            return
        if op == 'select':
            c, x, y = self.ref(i.a[0], ('i', 1)), self.ref(i.a[1], i.ty), self.ref(i.a[2], i.ty)
            if i.ty == ('i', 1):
                if i.a[2] == ('c', False):
                    w(ind, '%s=and_(%s,%s,1)' % (d, c, x))
                    return
                if i.a[1] == ('c', True):
                    w(ind, '%s=or_(%s,%s,1)' % (d, c, y))
                    return
            w(ind, '%s=%s if %s else %s' % (d, x, c, y))
            return
        if op == 'alloca':
            n = self.p.size(i.ty, self.mod)
            cnt = self.ref(i.a[0], ('i', 64))
            w(ind, '%s=Ptr(Obj(%d*IX(%s),"stack"))' % (d, max(n, 1), cnt) if cnt != '1' else '%s=Ptr(Obj(%d,"stack"))' % (d, max(n, 1)))
            return
        if op in ('call', 'invoke'):
            args = i.extra if op == 'call' else i.extra[0]
            callee = i.a[0]
            av = ','.join(self.ref(v, t) for t, v, at in args)
            if callee[0] == 'g':
                nm = callee[1]
                if nm.startswith('llvm.') and nm.split('.')[1] in ('lifetime', 'assume', 'experimental', 'dbg', 'invariant'):
                    if op == 'invoke':
                        self.goto(b, i.extra[1], ind)
                    return
                if nm == '__cxa_throw':
                    t = args[1][1]
                    w(ind, 'raise CxxThrow(%s,%r)' % (self.ref(args[0][1], PTR), t[1] if t[0] == 'g' else '?')) if op == 'call' else None
                    if op == 'call':
                        return
                    e = 'THROW(%s,%r)' % (self.ref(args[0][1], PTR), t[1] if t[0] == 'g' else '?')
                    self.p.G['THROW'] = throw_
                else:
                    e = '%s(%s)' % (self.p.pyname(nm, self.mod), av)
            else:
                e = '%s.o.fn(%s)' % (self.ref(callee, PTR), av)
            if d is not None:
                e = '%s=%s' % (d, e)
            if op == 'call':
                w(ind, e)
                return
            w(ind, 'try:' + e)
            w(ind, 'except CxxThrow as ex:')
            # phi moves into the landing pad happen here
            w(ind + 1, 'exc=ex')
            self.goto(b, i.extra[2], ind + 1)
            self.goto(b, i.extra[1], ind)
            return
        if op == 'landingpad':
            clauses, cleanup = i.extra
            cl = []
            for kind, v in clauses:
                if kind == 'catch':
                    cl.append(v[1] if v[0] == 'g' else None)
            self.p.G['LPAD'] = lpad
            ids = [(c, self.p.globptr(c, self.mod) if c else NULL) for c in cl]
            w(ind, '%s=LPAD(exc,%s,%r)' % (d, self.konst(ids, ('lp', tuple(cl), self.f.name, i.dst)), cleanup))
            return
        if op == 'resume':
            w(ind, 'raise exc')
            return
        if op == 'extractvalue':
            w(ind, '%s=%s%s' % (d, self.ref(i.a[0], i.ty), ''.join('[%d]' % k for k in i.extra)))
            return
        if op == 'insertvalue':
            if len(i.extra) != 1:
                raise Unsupported('nested insertvalue')
            a = i.a[0]
            self.p.G['INSV'] = insv
            w(ind, '%s=INSV(%s,%s,%d)' % (d, 'None' if a[0] == 'undef' else self.ref(a, i.ty), self.ref(i.a[1], ('i', 64)), i.extra[0]))
            return
        if op == 'br':
            self.goto(b, i.extra[0], ind)
            return
        if op == 'condbr':
            c = self.ref(i.a[0], ('i', 1))
            x, y = i.extra
            if x == y:
                self.goto(b, x, ind)
                return
            w(ind, 'if %s:' % c)
            self.goto(b, x, ind + 1)
            w(ind, 'else:')
            self.goto(b, y, ind + 1)
            return
        if op == 'switch':
            v = self.ref(i.a[0], i.ty)
            dflt, cases = i.extra
            kw = 'if'
            for cv, lab in cases:
                w(ind, '%s %s==%d:' % (kw, v, cv))
                self.goto(b, lab, ind + 1)
                kw = 'elif'
            if cases:
                w(ind, 'else:')
                self.goto(b, dflt, ind + 1)
            else:
                self.goto(b, dflt, ind)
            return
        if op == 'ret':
            w(ind, 'return ' + self.ref(i.a[0], i.ty) if i.a else 'return')
            return
        if op == 'unreachable':
            w(ind, 'raise MemErr("unreachable code reached in %s")' % self.f.name)
            return
        if op == 'nop':
            w(ind, 'pass')
            return
        raise Unsupported('instruction %s in %s' % (op, self.f.name))


def throw_(o, t):
    raise rt.CxxThrow(o, t)


BASES = {
    '_ZTISt9exception': None,
    '_ZTISt11logic_error': {'_ZTISt12out_of_range', '_ZTISt16invalid_argument', '_ZTISt12length_error', '_ZTISt12domain_error'},
    '_ZTISt13runtime_error': {'_ZTISt11range_error', '_ZTISt14overflow_error'},
}


def lpad(exc, clauses, cleanup):
    rt.CURRENT_EXC[:] = [exc]
    for n, p in clauses:
        if n is None or n == exc.tname or n == '_ZTISt9exception' and exc.tname.startswith('_ZTI') or exc.tname in (BASES.get(n) or ()):
            return (exc.obj, typeid(p) if n else 1)
    return (exc.obj, 0)


def insv(a, v, k):
    a = [None, None] if a is None or a is UNDEF else list(a)
    while len(a) <= k:
        a.append(UNDEF)
    a[k] = v
    return tuple(UNDEF if x is None else x for x in a)
