"""Textual LLVM-IR (18, opaque pointers) parser: modules, types, globals, functions."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<qid>[%@$](?:"[^"]*"))
 | (?P<id>[%@][-a-zA-Z$._0-9]+)
 | (?P<str>"[^"]*")
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?0x[HKLMR]?[0-9A-Fa-f]+|[-+]?[0-9]+(?:\.[0-9]*(?:e[-+]?[0-9]+)?)?)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('IR token at %r' % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k is None:
            continue
        v = m.group(k)
        if k == 'qid':
            v = v[0] + v[2:-1]
            k = 'id'
        out.append((k, v))
    return out


class T:
    """Types: ('i',n) ('f64',) ('f32',) ('ptr',) ('void',) ('arr',n,T) ('struct',[T],packed) ('named',name) ('vec',n,T)"""


PTR = ('ptr',)
F64 = ('f64',)
F32 = ('f32',)
VOID = ('void',)


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        k, x = self.next()
        if x != v:
            raise SyntaxError('expected %r got %r in %r' % (v, x, self.t[max(0, self.i - 8):self.i + 4]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.acc('addrspace'):
                    self.exp('('); self.next(); self.exp(')')
                ty = PTR
            elif v == 'double':
                ty = F64
            elif v == 'float':
                ty = F32
            elif v == 'void':
                ty = VOID
            elif v in ('label', 'metadata', 'token', 'opaque', 'x86_fp80', 'half', 'fp128'):
                ty = (v,)
            elif re.fullmatch(r'i\d+', v):
                ty = ('i', int(v[1:]))
            else:
                raise SyntaxError('type %r' % v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x')
            t = self.type(); self.exp(']')
            ty = ('arr', n, t)
        elif v == '{':
            ty = ('struct', self.tlist('}'), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                ts = self.tlist('}'); self.exp('>')
                ty = ('struct', ts, True)
            else:
                n = int(self.next()[1]); self.exp('x')
                t = self.type(); self.exp('>')
                ty = ('vec', n, t)
        elif k == 'id':
            ty = ('named', v[1:])
        else:
            raise SyntaxError('type %r' % v)
        # function type
        while self.peek()[1] == '(':
            self.next()
            args = []
            while not self.acc(')'):
                if self.acc('...'):
                    args.append('...')
                else:
                    args.append(self.type())
                    self.skip_param_attrs()
                self.acc(',')
            ty = ('fn', ty, args)
        return ty

    def tlist(self, end):
        ts = []
        while not self.acc(end):
            ts.append(self.type())
            self.acc(',')
        return ts

    PATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'inreg', 'noalias',
             'returned', 'immarg', 'nest', 'swiftself', 'noreturn', 'nofree', 'writable', 'dead_on_unwind', 'allocptr', 'allocalign',
             'inalloca'}

    def skip_param_attrs(self):
        """returns dict of interesting attributes"""
        out = {}
        while True:
            k, v = self.peek()
            if v in self.PATTR:
                self.next()
            elif v == 'align':
                self.next()
                if self.acc('('):
                    self.next(); self.exp(')')
                else:
                    self.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'memory', 'initializes', 'nofpclass'):
                self.next()
                self.paren()
            elif v in ('sret', 'byval', 'elementtype', 'byref', 'preallocated'):
                self.next()
                if self.acc('('):
                    out[v] = self.type()
                    self.exp(')')
            elif k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return out

    def paren(self):
        self.exp('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def value(self, ty):
        """Operand of the given type: ('l',name) local, ('g',name) global, ('c',python constant), ('ce',...) expression"""
        k, v = self.next()
        if k == 'id':
            return ('l', v[1:]) if v[0] == '%' else ('g', v[1:])
        if k == 'num':
            if ty[0] == 'i':
                return ('c', int(v))
            if ty in (F64, F32):
                return ('c', parse_fp(v, ty))
            raise SyntaxError('number for type %r' % (ty,))
        if k == 'cstr':
            return ('bytes', cstring(v))
        if k == 'word':
            if v == 'true':
                return ('c', True)
            if v == 'false':
                return ('c', False)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('zero',)
            if v in ('getelementptr',):
                while self.acc('inbounds') or self.acc('nuw') or self.acc('nusw'):
                    pass
                if self.peek()[1] == 'inrange':
                    self.next(); self.paren()
                self.exp('(')
                st = self.type()
                idx = []
                while self.acc(','):
                    while self.peek()[1] == 'inrange':
                        self.next()
                        if self.peek()[1] == '(':
                            self.paren()
                    t = self.type()
                    idx.append((t, self.value(t)))
                self.exp(')')
                return ('gep', st, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                t = self.type()
                x = self.value(t)
                self.exp('to')
                t2 = self.type()
                self.exp(')')
                return ('cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.exp('(')
                t = self.type(); a = self.value(t); self.exp(',')
                t = self.type(); b = self.value(t); self.exp(')')
                return ('cbin', v, t, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
        if v == '{':
            return ('agg', self.vlist('}'))
        if v == '[':
            return ('agg', self.vlist(']'))
        if v == '<':
            if self.acc('{'):
                r = ('agg', self.vlist('}'))
                self.exp('>')
                return r
            return ('agg', self.vlist('>'))
        raise SyntaxError('value %r of type %r near %r' % (v, ty, self.t[max(0, self.i - 6):self.i + 6]))

    def vlist(self, end):
        xs = []
        while not self.acc(end):
            t = self.type()
            self.skip_param_attrs()
            xs.append((t, self.value(t)))
            self.acc(',')
        return xs

    def tv(self):
        t = self.type()
        self.skip_param_attrs()
        return t, self.value(t)


def parse_fp(v, ty):
    if v.startswith('0x') or v.startswith('-0x'):
        h = v[2:]
        if h[0] in 'HKLMR':
            raise SyntaxError('fp format ' + v)
        f = struct.unpack('>d', struct.pack('>Q', int(h, 16)))[0]
    else:
        f = float(v)
    if f != f or f in (float('inf'), float('-inf')):
        return f
    fr = Fraction(f)
    return fr.numerator if fr.denominator == 1 else fr


def cstring(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('latin1'); i += 1
    return bytes(out)


class Function:
    __slots__ = ('name', 'ret', 'params', 'vararg', 'body', 'mod', 'blocks', 'code', 'linkage')


class Module:
    def __init__(self, text, fname):
        self.fname = fname
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.declared = set()
        self.aliases = {}
        self.ctors = []
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                p = P(tokenize(l), self)
                name = p.next()[1][1:]
                p.exp('='); p.exp('type')
                if p.peek()[1] == 'opaque':
                    self.types[name] = ('opaque',)
                else:
                    self.types[name] = p.type()
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self.parse_define(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.declared.add(m.group(1).strip('"'))
            i += 1

    def parse_global(self, l):
        p = P(tokenize(l), self)
        name = p.next()[1][1:]
        p.exp('=')
        words = []
        while p.peek()[0] == 'word' and p.peek()[1] not in ('global', 'constant', 'alias', 'ifunc'):
            w = p.next()[1]
            words.append(w)
            if p.peek()[1] == '(':
                p.paren()
        kind = p.next()[1]
        if kind == 'alias':
            p.type(); p.exp(',')
            t = p.type()
            v = p.value(t)
            self.aliases[name] = v[1]
            return
        t = p.type()
        init = None
        if not ({'external', 'extern_weak'} & set(words)):
            init = p.value(t)
        if name == 'llvm.global_ctors':
            for tt, v in init[1]:
                self.ctors.append(v[1][1][1][1])
            return
        if name.startswith('llvm.'):
            return
        self.globals[name] = (t, init, 'internal' in words or 'private' in words)

    def parse_define(self, l, body):
        # tokens up to '{'
        p = P(tokenize(l), self)
        p.exp('define')
        linkage = []
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'available_externally', 'private', 'hidden',
                                     'protected', 'default', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc', 'coldcc',
                                     'linkonce', 'weak', 'external', 'dso_preemptable', 'tailcc', 'cxx_fast_tlscc'):
                linkage.append(v)
                p.next()
            else:
                break
        p.skip_param_attrs()
        f = Function()
        f.linkage = linkage
        f.mod = self
        f.ret = p.type()
        f.name = p.next()[1][1:]
        p.exp('(')
        f.params = []
        f.vararg = False
        while not p.acc(')'):
            if p.acc('...'):
                f.vararg = True
                continue
            t = p.type()
            at = p.skip_param_attrs()
            k, v = p.peek()
            if k == 'id' and v[0] == '%':
                p.next()
                nm = v[1:]
            else:
                nm = str(len(f.params))
            f.params.append((nm, t, at))
            p.acc(',')
        f.body = body
        f.blocks = None
        f.code = None
        self.functions[f.name] = f


LABEL = re.compile(r'^("[^"]*"|[-\w$.]+):')


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'extra')

    def __init__(self, op, dst, ty=None, a=None, extra=None):
        self.op, self.dst, self.ty, self.a, self.extra = op, dst, ty, a, extra

    def __repr__(self):
        return 'Instr(%s %s %s %s %s)' % (self.dst, self.op, self.ty, self.a, self.extra)


FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
META = re.compile(r', ![-\w.]+ !\d+|, ![-\w.]+ ![^,]*$')


def parse_body(f):
    """-> ordered dict label -> [Instr]"""
    mod = f.mod
    blocks = {}
    cur = None
    # implicit entry label
    first = None
    lines = f.body
    merged = []
    i = 0
    while i < len(lines):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(';'):
            i += 1
            continue
        if LABEL.match(l):
            merged.append(l)
            i += 1
            continue
        # continuation lines (switch, landingpad clauses, invoke targets)
        j = i + 1
        if ' switch ' in l or l.startswith('  switch'):
            while ']' not in lines[j - 1].split('[', 1)[-1] or '[' not in ''.join(lines[i:j]):
                s += ' ' + lines[j].strip()
                j += 1
                if ']' in lines[j - 1]:
                    break
        else:
            while j < len(lines) and lines[j].startswith('          '):
                s += ' ' + lines[j].strip()
                j += 1
        merged.append('  ' + s)
        i = j
    for l in merged:
        m = LABEL.match(l)
        if m:
            cur = m.group(1).strip('"')
            blocks[cur] = []
            continue
        if cur is None:
            n = 0
            for nm, t, at in f.params:
                if nm.isdigit():
                    n = max(n, int(nm) + 1)
            cur = str(n)
            blocks[cur] = []
        blocks[cur].append(parse_instr(l.strip(), mod))
    return blocks


def parse_instr(s, mod):
    s = META.sub('', s)
    while True:
        s2 = META.sub('', s)
        if s2 == s:
            break
        s = s2
    toks = tokenize(s)
    # cut metadata/attributes trailing
    p = P(toks, mod)
    dst = None
    if len(toks) > 1 and toks[0][0] == 'id' and toks[1][1] == '=':
        dst = toks[0][1][1:]
        p.i = 2
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'and', 'or', 'xor'):
        fl = set()
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.add(p.next()[1])
        t = p.type()
        a = p.value(t); p.exp(','); b = p.value(t)
        return Instr(op, dst, t, [a, b], fl)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
        while p.peek()[1] in FMF:
            p.next()
        t = p.type()
        a = [p.value(t)]
        if op != 'fneg':
            p.exp(',')
            a.append(p.value(t))
        return Instr(op, dst, t, a)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FMF or p.peek()[1] == 'samesign':
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t); p.exp(','); b = p.value(t)
        return Instr(op, dst, t, [a, b], pred)
    if op == 'load':
        p.acc('atomic'); p.acc('volatile')
        t = p.type(); p.exp(',')
        pt, pv = p.tv()
        al = 0
        if p.acc(',') and p.peek()[1] == 'align':
            p.next(); al = int(p.next()[1])
        return Instr('load', dst, t, [pv], al)
    if op == 'store':
        p.acc('atomic'); p.acc('volatile')
        t, v = p.tv(); p.exp(',')
        pt, pv = p.tv()
        return Instr('store', None, t, [v, pv])
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        st = p.type(); p.exp(',')
        pt, base = p.tv()
        idx = []
        while p.acc(','):
            idx.append(p.tv())
        return Instr('gep', dst, st, [base], idx)
    if op == 'alloca':
        t = p.type()
        n = ('c', 1)
        if p.acc(','):
            if p.peek()[1] != 'align':
                t2, n = p.tv()
        return Instr('alloca', dst, t, [n])
    if op == 'br':
        t = p.type()
        if t == ('label',):
            return Instr('br', None, None, [], [p.next()[1][1:]])
        c = p.value(t)
        p.exp(','); p.type(); a = p.next()[1][1:]
        p.exp(','); p.type(); b = p.next()[1][1:]
        return Instr('condbr', None, None, [c], [a, b])
    if op == 'switch':
        t = p.type(); v = p.value(t)
        p.exp(','); p.type(); d = p.next()[1][1:]
        p.exp('[')
        cases = []
        while not p.acc(']'):
            tt = p.type(); cv = p.value(tt); p.exp(','); p.type()
            cases.append((cv[1], p.next()[1][1:]))
        return Instr('switch', None, t, [v], (d, cases))
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Instr('ret', None, t, [])
        return Instr('ret', None, t, [p.value(t)])
    if op == 'unreachable':
        return Instr('unreachable', None)
    if op == 'resume':
        t, v = p.tv()
        return Instr('resume', None, t, [v])
    if op == 'phi':
        while p.peek()[1] in FMF:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t); p.exp(',')
            inc.append((v, p.next()[1][1:]))
            p.exp(']')
            if not p.acc(','):
                break
        return Instr('phi', dst, t, [], inc)
    if op == 'select':
        while p.peek()[1] in FMF:
            p.next()
        ct, c = p.tv(); p.exp(',')
        t, a = p.tv(); p.exp(',')
        t2, b = p.tv()
        return Instr('select', dst, t, [c, a, b])
    if op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast',
              'addrspacecast'):
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t, v = p.tv()
        p.exp('to')
        t2 = p.type()
        return Instr(op, dst, t2, [v], t)
    if op in ('call', 'invoke'):
        while p.peek()[1] in FMF:
            p.next()
        while p.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'tailcc'):
            p.next()
        p.skip_param_attrs()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        k, v = p.peek()
        if v == 'asm':
            return Instr('asm', dst, t, [])
        callee = p.value(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            at = p.type()
            if at == ('metadata',):
                # skip metadata operand
                d = 0
                while not (d == 0 and p.peek()[1] in (',', ')')):
                    v = p.next()[1]
                    d += (v == '(') - (v == ')')
                p.acc(',')
                continue
            attrs = p.skip_param_attrs()
            args.append((at, p.value(at), attrs))
            p.acc(',')
        if op == 'call':
            return Instr('call', dst, t, [callee], args)
        while p.peek()[1] != 'to':
            p.next()
        p.next(); p.type(); n = p.next()[1][1:]
        p.exp('unwind'); p.type(); u = p.next()[1][1:]
        return Instr('invoke', dst, t, [callee], (args, n, u))
    if op == 'landingpad':
        t = p.type()
        clauses = []
        cleanup = False
        while p.peek()[0] is not None:
            w = p.next()[1]
            if w == 'cleanup':
                cleanup = True
            elif w in ('catch', 'filter'):
                tt = p.type()
                clauses.append((w, p.value(tt)))
            else:
                break
        return Instr('landingpad', dst, t, [], (clauses, cleanup))
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        return Instr('extractvalue', dst, t, [v], idx)
    if op == 'insertvalue':
        t, v = p.tv(); p.exp(',')
        t2, e = p.tv()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        return Instr('insertvalue', dst, t, [v, e], idx)
    if op == 'freeze':
        t, v = p.tv()
        return Instr('freeze', dst, t, [v])
    if op == 'fence':
        return Instr('nop', None)
    if op in ('extractelement', 'insertelement', 'shufflevector'):
        ops = [p.tv()]
        while p.acc(','):
            ops.append(p.tv())
        return Instr(op, dst, ops[0][0], [v for t, v in ops], [t for t, v in ops])
    raise SyntaxError('instruction ' + s)
