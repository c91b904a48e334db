"""Path explorer: depth-first re-execution with an SMT solver deciding every branch."""
import math
import os
import random
import sys
import time
from fractions import Fraction

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

from . import dom
from .dom import Poly, Cond, SInt, ATOMS, Unsupported, CUR


class PathEnd(BaseException):
    pass


class Infeasible(PathEnd):
    """The path condition is unsatisfiable (or excluded by an assumption)."""


class Found(PathEnd):
    """A check failed on this path (counterexample recorded)."""


class TimeSlice(BaseException):
    pass


class Stats:
    FIELDS = ('paths', 'decisions', 'queries', 'sat', 'unsat', 'unknown', 'checks', 'checks_simplified',
              'checks_solver', 'infeasible')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s

    def dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 2)
        return d


def q2z(c):
    c = Fraction(c)
    return z3.RatVal(c.numerator, c.denominator)


def fl2z(f):
    return q2z(Fraction(f))


CONSTS = {}          # atom -> enclosure
REDUCED = {}         # condition -> relaxed polynomial


class Z:
    """Translation of the numeric domain to z3 (fresh per path numbering of atoms)."""

    @staticmethod
    def atom(a):
        at = ATOMS[a]
        if at.z is None:
            if at.isint:
                at.z = z3.ToReal(z3.Int('i%d_%s' % (at.id, at.name)))
            else:
                at.z = z3.Real('r%d_%s' % (at.id, at.name))
        return at.z

    @staticmethod
    def poly(p):
        if p.__class__ is not Poly:
            return q2z(p)
        terms = []
        for m, c in p.t.items():
            fs = []
            if c != 1 or not m:
                fs.append(q2z(c))
            for a, e in m:
                z = Z.atom(a)
                if e < 0:
                    raise Unsupported('negative exponent reached the solver')
                fs.extend([z] * e if e <= 4 else [z ** e])
            if len(fs) == 1:
                terms.append(fs[0])
            else:
                terms.append(z3.Product(fs))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    @staticmethod
    def const_bounds(a):
        """enclosure (40 digits) of an atom without variables, or None"""
        at = ATOMS[a]
        r = CONSTS.get(a)
        if r is None:
            r = False
            d = at.data
            if at.kind in ('sqrt', 'inv'):
                if d.__class__ is Poly:
                    lo = hi = Fraction(0)
                    for m, k in d.t.items():
                        b = Z.const_mono(m)
                        if b is None:
                            lo = None
                            break
                        k = Fraction(k)
                        lo += k * (b[0] if k > 0 else b[1])
                        hi += k * (b[1] if k > 0 else b[0])
                    d = (lo, hi) if lo is not None and lo > 0 else None
                else:
                    d = Fraction(d)
                    d = (d, d) if d > 0 else None
                if d is not None and at.kind == 'inv':
                    r = (1 / d[1], 1 / d[0])
                elif d is not None:
                    def root(q):
                        s = 10 ** 80
                        sh = 1
                        while q * sh * sh < 1:
                            sh *= 2 ** 32
                        return math.isqrt(int(q * sh * sh * s)), sh * 10 ** 40
                    x, y = root(d[0]), root(d[1])
                    r = (Fraction(x[0], x[1]), Fraction(y[0] + 1, y[1]))
            CONSTS[a] = r
        return r or None

    @staticmethod
    def const_mono(m):
        lo = hi = Fraction(1)
        for a, e in m:
            b = Z.const_bounds(a)
            if b is None or b[0] <= 0:
                return None
            if e < 0:
                b = (1 / b[1], 1 / b[0])
            for _ in range(abs(e)):
                lo, hi = lo * b[0], hi * b[1]
        return lo, hi

    @staticmethod
    def reduce(c):
        """(polynomial with rational coefficients, eps): the condition's polynomial with its irrational constants replaced by
        their midpoints, and a bound of the error; the relaxed condition follows from the original one"""
        return Z.reduce_poly(c.p)

    @staticmethod
    def reduce_poly(p):
        r = REDUCED.get(p.key())
        if r is not None:
            return r
        acc = {}
        hit = False
        for m, k in p.t.items():
            cm, vm = [], []
            for a, e in m:
                (cm if Z.const_bounds(a) else vm).append((a, e))
            vm = tuple(vm)
            k = Fraction(k)
            lo = hi = k
            if cm:
                hit = True
                b = Z.const_mono(cm)
                lo, hi = (k * b[0], k * b[1]) if k > 0 else (k * b[1], k * b[0])
            o = acc.get(vm)
            acc[vm] = (lo, hi) if o is None else (o[0] + lo, o[1] + hi)
        r = (p, 0)
        if hit:
            eps = Fraction(0)
            t = {}
            for vm, (lo, hi) in acc.items():
                mid = (lo + hi) / 2
                mag = max(abs(lo), abs(hi))
                if mag:
                    den = max(1, int(10 ** 30 / mag)) if mag < 1 else 10 ** 30
                    mid = Fraction(round(mid * den), den)
                err = max(hi - mid, mid - lo)
                b = 1.0
                for a, e in vm:
                    at = ATOMS[a]
                    x = dom.ipow_b((at.lo, at.hi), e)
                    b *= max(abs(x[0]), abs(x[1]))
                if not b < 1e12:
                    t = None
                    break
                eps += err * Fraction(b * 1.001)
                if mid:
                    t[vm] = mid
            if t is not None and eps < Fraction(1, 10 ** 12):
                r = (Poly(t) if t else 0, eps)
        REDUCED[p.key()] = r
        return r

    @staticmethod
    def cond(c):
        if c is True or c is False:
            return z3.BoolVal(c)
        if c.args is not None:
            xs = [Z.cond(a) for a in c.args]
            return z3.And(xs) if c.op == 'and' else z3.Or(xs)
        p, eps = Z.reduce(c)
        if eps:
            if p.__class__ is Poly and len(p.t) == 1 and () in p.t:
                p = p.t[()]
            if p.__class__ is not Poly:
                return z3.BoolVal(p + eps > 0 if c.op == '>' else p + eps >= 0 if c.op == '>=' else -eps <= p <= eps if c.op == '==' else True)
            e = Z.poly(p)
            eps = q2z(eps)
            if c.op == '>':
                return e > -eps
            if c.op == '>=':
                return e >= -eps
            if c.op == '==':
                return z3.And(e >= -eps, e <= eps)
            return z3.BoolVal(True)
        # integer coefficients
        den = 1
        for k in p.t.values():
            f = Fraction(k)
            den = den * f.denominator // math.gcd(den, f.denominator)
        e = Z.poly(p * den if den != 1 else p)
        zero = z3.RealVal(0)
        if c.op == '>':
            return e > zero
        if c.op == '>=':
            return e >= zero
        if c.op == '==':
            return e == zero
        return e != zero

    @staticmethod
    def atoms_of(c, out):
        if c.__class__ is bool:
            return
        if c.args is not None:
            for a in c.args:
                Z.atoms_of(a, out)
            return
        Z.atoms_poly(Z.reduce(c)[0], out)

    @staticmethod
    def atoms_poly(p, out):
        if p.__class__ is not Poly:
            return
        for m in p.t:
            for a, e in m:
                if a not in out:
                    out.add(a)
                    d = ATOMS[a].data
                    if d.__class__ is Poly:
                        Z.atoms_poly(d, out)
                    elif d.__class__ is tuple:
                        for x in d:
                            Z.atoms_poly(x, out)
                    elif ATOMS[a].kind == 'sin':
                        out.add(d)

    @staticmethod
    def axioms(a, others):
        at = ATOMS[a]
        z = Z.atom(a)
        ax = []
        if at.lo != -math.inf and not (at.kind == 'sqrt' and at.data.__class__ is Poly):
            ax.append(z >= fl2z(at.lo))
        if at.hi != math.inf and not (at.kind == 'sqrt' and at.data.__class__ is Poly):
            ax.append(z <= fl2z(at.hi))
        k = at.kind
        if k == 'sqrt':
            E = dom.clear_denominators(at.data)
            if E is at.data or E.__class__ is not Poly and E == at.data:
                ax.append(z * z == Z.poly(E))
            else:
                # z^2 = data, cross-multiplied
                d = dom.clear_denominators(Poly({((a, 1),): 1}))
                ax.append(z * z == Z.poly_ratfree(at.data))
            ax.append(z >= 0)
        elif k == 'inv':
            ax.append(z * Z.poly_ratfree(at.data) == 1)
        elif k == 'cbrt':
            ax.append(z * z * z == Z.poly_ratfree(at.data))
        elif k == 'floor':
            x = Z.poly_ratfree(at.data)
            ax += [z <= x, x < z + 1]
        elif k == 'sin':
            c = Z.atom(at.data)
            ax.append(z * z + c * c == 1)
        elif k == 'exp':
            x = Z.poly_ratfree(at.data)
            ax += [z > 0, z >= 1 + x]
            for b in others:
                if b < a and ATOMS[b].kind == 'exp':
                    y = Z.poly_ratfree(ATOMS[b].data)
                    ax.append((x < y) == (z < Z.atom(b)))
        elif k == 'log':
            x = Z.poly_ratfree(at.data)
            ax += [z <= x - 1, (x >= 1) == (z >= 0)]
            for b in others:
                if b < a and ATOMS[b].kind == 'log':
                    y = Z.poly_ratfree(ATOMS[b].data)
                    ax.append((x < y) == (z < Z.atom(b)))
        return ax

    @staticmethod
    def poly_ratfree(p):
        """z3 term for a Poly that may contain reciprocal atoms / negative exponents."""
        if p.__class__ is not Poly:
            return q2z(p)
        terms = []
        for m, c in p.t.items():
            t = q2z(c)
            for a, e in m:
                z = Z.atom(a)
                for _ in range(abs(e)):
                    t = t * z if e > 0 else t / z
            terms.append(t)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]


# -- numeric evaluation ---------------------------------------------------------
def evalf(p, env, memo):
    if p.__class__ is not Poly:
        return float(p)
    s = 0.0
    for m, c in p.t.items():
        t = float(c)
        for a, e in m:
            v = memo.get(a)
            if v is None:
                v = memo[a] = eval_atom(ATOMS[a], env, memo)
            t *= v ** e
        s += t
    return s


def eval_atom(at, env, memo):
    k = at.kind
    if k == 'var':
        return env[at.name]
    if k == 'sqrt':
        return math.sqrt(max(evalf(at.data, env, memo), 0.0))
    if k == 'inv':
        return 1.0 / evalf(at.data, env, memo)
    if k == 'cbrt':
        v = evalf(at.data, env, memo)
        return math.copysign(abs(v) ** (1 / 3), v)
    if k == 'floor':
        return float(math.floor(evalf(at.data, env, memo)))
    if k == 'cos':
        return math.cos(evalf(at.data, env, memo))
    if k == 'sin':
        return math.sin(evalf(ATOMS[at.data].data, env, memo))
    if k == 'exp':
        return math.exp(min(evalf(at.data, env, memo), 700))
    if k == 'log':
        return math.log(evalf(at.data, env, memo))
    if k == 'angle':
        c, s = at.data
        return math.atan2(evalf(s, env, memo), evalf(c, env, memo))
    raise Unsupported('eval ' + k)


def evalc(c, env, memo, margin=1e-7):
    """True / False / None when too close to call."""
    if c.__class__ is bool:
        return c
    if c.args is not None:
        vs = [evalc(a, env, memo, margin) for a in c.args]
        if c.op == 'and':
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    v = evalf(c.p, env, memo)
    sc = max(abs(float(k)) for k in c.p.t.values())
    if abs(v) <= margin * max(1.0, sc):
        return None
    if c.op == '==':
        return False
    if c.op == '!=':
        return True
    return v > 0


class Explorer:
    def __init__(self, decide_timeout=2000, check_timeout=10000, seed=1):
        self.stats = Stats()
        self.decide_timeout = decide_timeout
        self.check_timeout = check_timeout
        self.solver = z3.Solver()
        self.levels = []          # outcomes asserted so far: list of (signature, set of atoms)
        self.rng = random.Random(seed)
        self.candidates = []
        self.inconclusive = []
        self.plan = []
        self.deadline = None
        self.concretize_limit = 64

    # ------------------------------------------------------------------ running
    def begin(self, plan):
        """plan: list of [outcome, alternatives]"""
        dom.reset_atoms()
        CONSTS.clear()
        REDUCED.clear()
        self.plan = plan
        self.pos = 0
        self.sig = 0
        self.pc = []            # (sig, Cond) in order
        self.facts = {}
        self.env = None         # numeric model known to satisfy the PC
        self.memo = {}
        self.nuninit = 0
        self.uninit_used = False
        self.inputs = []        # (kind, name, value/atom)
        CUR.explorer = self

    def next_plan(self):
        """Advance to the next unexplored path; False when done."""
        while self.plan:
            e = self.plan[-1]
            if e[1]:
                e[0] = e[1].pop(0)
                return True
            self.plan.pop()
        return False

    def open_prefixes(self):
        """Split the remaining exploration into independent prefixes (consumes the plan)."""
        out = []
        for i, e in enumerate(self.plan):
            for alt in e[1]:
                out.append([x[0] for x in self.plan[:i]] + [alt])
        return out

    # ------------------------------------------------------------------ deciding
    def add_fact(self, c, v):
        """record truth of Cond c (and cheap consequences)"""
        f = self.facts
        if c.args is not None:
            f[c.key()] = v
            if v and c.op == 'and' or (not v and c.op == 'or'):
                for a in c.args:
                    if a.__class__ is Cond:
                        self.add_fact(a, v)
            return
        k = c.p.key()
        nk = (-c.p).key()
        op = c.op if v else dom.NEG[c.op]
        if op == '>':
            up = {('>', k): True, ('>=', k): True, ('==', k): False, ('!=', k): True,
                  ('>', nk): False, ('>=', nk): False, ('==', nk): False, ('!=', nk): True}
        elif op == '<':
            up = {('>', nk): True, ('>=', nk): True, ('==', nk): False, ('!=', nk): True,
                  ('>', k): False, ('>=', k): False, ('==', k): False, ('!=', k): True}
        elif op == '>=':
            up = {('>=', k): True, ('>', nk): False}
        elif op == '<=':
            up = {('>=', nk): True, ('>', k): False}
        elif op == '==':
            up = {('>', k): False, ('>=', k): True, ('==', k): True, ('!=', k): False,
                  ('>', nk): False, ('>=', nk): True, ('==', nk): True, ('!=', nk): False}
        else:
            up = {('!=', k): True, ('==', k): False, ('!=', nk): True, ('==', nk): False}
        f.update(up)

    def known(self, c):
        if c.args is not None:
            r = self.facts.get(c.key())
            if r is not None:
                return r
            vs = [self.known(a) if a.__class__ is Cond else a for a in c.args]
            if c.op == 'and':
                return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        return self.facts.get((c.op, c.p.key()))

    def decide(self, c):
        r = self.known(c)
        if r is not None:
            return r
        if self.pos < len(self.plan):
            v = self.consume()
            self.take(c, v)
            return v
        if self.deadline is not None and time.time() > self.deadline:
            raise TimeSlice
        self.stats.decisions += 1
        nc = c.neg()
        tv = fv = m = env_t = env_f = None
        if self.env is not None:
            try:
                m = evalc(c, self.env, self.memo)
            except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                m = None
            if m is True:
                tv = True
            elif m is False:
                fv = True
        if tv is None:
            r, env_t = self.query(c, self.decide_timeout)
            tv = r != 'unsat'
        if fv is None:
            if not tv:
                fv = True         # PC is satisfiable, so the other side is
            else:
                r, env_f = self.query(nc, self.decide_timeout)
                fv = r != 'unsat'
        if tv and fv:
            v = m is not False
            self.plan.append([v, [not v]])
            if m is None:
                self.env, self.memo = (env_t, {}) if v else (env_f, {})
        else:
            v = bool(tv)
            self.plan.append([v, []])
            if self.env is None and v and env_t is not None:
                self.env, self.memo = env_t, {}
        self.consume()
        self.take(c, v)
        return v

    def consume(self):
        v = self.plan[self.pos][0]
        self.pos += 1
        self.sig = hash((self.sig, v))
        return v

    def take(self, c, v):
        cc = c if v else c.neg()
        self.add_fact(c, v)
        if cc.__class__ is Cond:
            self.pc.append((self.sig, cc))

    def assume(self, c):
        if c.__class__ is not Cond:
            if not c:
                raise Infeasible
            return
        r = self.known(c)
        if r is True:
            return
        if r is False:
            raise Infeasible
        if self.pos < len(self.plan):
            v = self.consume()
        else:
            ok = False
            if self.env is not None:
                try:
                    ok = evalc(c, self.env, self.memo) is True
                except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                    ok = False
            if not ok:
                r, env = self.query(c, self.decide_timeout)
                self.env, self.memo = env, {}
                v = r != 'unsat'
            else:
                v = True
            self.plan.append([v, []])
            self.consume()
        if not v:
            raise Infeasible
        self.take(c, True)

    def choice(self, n):
        if n <= 1:
            return 0
        if self.pos >= len(self.plan):
            self.plan.append([0, list(range(1, n))])
        return self.consume()

    def concretize(self, p):
        """p: Poly with integer value; forks over its feasible values."""
        if self.pos < len(self.plan):
            v = self.consume()
        else:
            vals = self.feasible_values(p, self.concretize_limit)
            if not vals:
                raise Infeasible
            v = vals[0]
            self.plan.append([v, vals[1:]])
            self.consume()
        c = dom.mkcond(p - v, '==')
        if c.__class__ is Cond:
            if self.known(c) is None:
                self.take(c, True)
                self.env = None
        elif not c:
            raise Infeasible
        return v

    def feasible_values(self, p, limit):
        self.sync()
        s = self.solver
        s.push()
        try:
            at = set()
            Z.atoms_poly(p, at)
            self.assert_atoms(s, at, set().union(*[l[1] for l in self.levels]) if self.levels else set())
            zp = Z.poly_ratfree(p)
            vals = []
            while True:
                t0 = time.time()
                s.set('timeout', self.check_timeout)
                r = s.check()
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t0
                if r == z3.unsat:
                    self.stats.unsat += 1
                    break
                if r != z3.sat:
                    self.stats.unknown += 1
                    raise Unsupported('cannot enumerate the values of an integer')
                self.stats.sat += 1
                mv = s.model().eval(zp, model_completion=True)
                v = zval(mv)
                v = int(round(v))
                if v in vals:
                    raise Unsupported('non-integral value enumeration')
                vals.append(v)
                if len(vals) > limit:
                    raise Unsupported('symbolic integer takes more than %d values' % limit)
                s.add(zp != v)
            return sorted(vals)
        finally:
            s.pop()

    def fresh_uninit(self, isint=False):
        self.nuninit += 1
        self.uninit_used = True
        name = 'uninit%d' % self.nuninit
        v = dom.var(name, -2147483648, 2147483647, True) if isint else dom.var(name)
        self.inputs.append(('uninit', name, v))
        if self.env is not None:
            self.env[name] = 0.0
        return v

    # ------------------------------------------------------------------ solver
    def sync(self):
        n = 0
        lv = self.levels
        pc = self.pc
        # plan outcomes are deterministic: equal outcome sequences mean equal conditions
        while n < len(lv) and n < len(pc) and lv[n][0] == (pc[n][0], pc[n][1].key()):
            n += 1
        while len(self.levels) > n:
            self.solver.pop()
            self.levels.pop()
        done = set()
        for l in self.levels:
            done |= l[1]
        for i in range(n, len(pc)):
            self.solver.push()
            at = set()
            Z.atoms_of(pc[i][1], at)
            new = self.assert_atoms(self.solver, at, done)
            self.solver.add(Z.cond(pc[i][1]))
            done |= new
            self.levels.append(((pc[i][0], pc[i][1].key()), new))

    def assert_atoms(self, s, at, done):
        new = at - done
        allat = at | done
        for a in sorted(new):
            for ax in Z.axioms(a, allat):
                s.add(ax)
        return new

    def query(self, c, timeout, want_model=True):
        """('sat'|'unsat'|'unknown', env)"""
        if c is False:
            return 'unsat', None
        self.sync()
        s = self.solver
        s.push()
        try:
            at = set()
            if c is not True:
                Z.atoms_of(c, at)
                done = set().union(*[l[1] for l in self.levels]) if self.levels else set()
                self.assert_atoms(s, at, done)
                s.add(Z.cond(c))
            s.set('timeout', timeout)
            t0 = time.time()
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0
            if r == z3.unsat:
                self.stats.unsat += 1
                return 'unsat', None
            if r == z3.sat:
                self.stats.sat += 1
                return 'sat', self.extract(s.model())
            asserts = s.assertions()
            # second opinion: nonlinear solver, non-incremental
            t0 = time.time()
            s2 = z3.Tactic('qfnra-nlsat').solver()
            s2.set('timeout', timeout)
            s2.add(asserts)
            try:
                r = s2.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0
            if r == z3.unsat:
                self.stats.unsat += 1
                return 'unsat', None
            if r == z3.sat:
                self.stats.sat += 1
                return 'sat', self.extract(s2.model())
            self.stats.unknown += 1
            return 'unknown', None
        finally:
            s.pop()

    def extract(self, model):
        env = {}
        for kind, name, v in self.inputs:
            if v.__class__ is SInt:
                v = v.p
            if v.__class__ is Poly:
                (m, c), = v.t.items()
                at = ATOMS[m[0][0]]
                x = zval(model.eval(Z.atom(a=m[0][0]), model_completion=False))
                env[name] = default_value(at) if x is None else x
        return env

    # ------------------------------------------------------------------ checks
    def check(self, c, what):
        """Assert that c holds on this path for all inputs that follow it."""
        self.stats.checks += 1
        if c.__class__ is not Cond:
            if c:
                self.stats.checks_simplified += 1
                return
            r, env = self.query(True, self.check_timeout)
            self.stats.checks_solver += 1
            if r == 'unsat':
                raise Infeasible
            if env is None and self.env is not None:
                env = dict(self.env)
            if env is None:
                env = self.random_model(None)
            self.fail(what, env)
        r = self.known(c)
        if r is True:
            self.stats.checks_simplified += 1
            return
        nc = c.neg()
        self.stats.checks_solver += 1
        if r is False:
            nc = True
        for timeout, tries in ((1500, 60), (self.check_timeout, 400)):
            r, env = self.query(nc, timeout)
            if r == 'unsat':
                self.add_fact(c, True)
                return
            if env is None:
                env = self.random_model(nc, tries)     # hint only: replayed on the real code
            if env is not None:
                break
        else:
            self.inconclusive.append('%s: solver gave no answer' % what)
            return
        self.fail(what, env)

    def random_model(self, nc, tries=60):
        """Numeric search for a counterexample (only a hint: it is replayed on the real code)."""
        vs = []
        for kind, name, v in self.inputs:
            if v.__class__ is SInt:
                v = v.p
            if v.__class__ is Poly:
                (m, c), = v.t.items()
                vs.append((name, ATOMS[m[0][0]]))
        if not vs:
            return {} if nc is None else None
        for k in range(tries):
            env = {}
            base = self.env if (self.env is not None and k % 3 == 1) else None
            for name, at in vs:
                lo = at.lo if at.lo != -math.inf else -8.0
                hi = at.hi if at.hi != math.inf else max(lo, 0) + 8.0
                if base is not None and self.rng.random() < 0.7:
                    env[name] = base.get(name, 0.0)
                    continue
                x = self.rng.uniform(lo, hi)
                if at.isint:
                    x = float(round(x))
                else:
                    x = min(hi, max(lo, round(x * 64) / 64))
                env[name] = x
            memo = {}
            try:
                ok = all(evalc(c, env, memo) is True for _v, c in self.pc)
                if ok and nc is not None and nc is not True:
                    ok = evalc(nc, env, memo, 1e-6) is True
            except (ValueError, ZeroDivisionError, OverflowError, KeyError):
                ok = False
            if ok:
                return env
        return None

    def fail(self, what, env):
        choices = [(k, n, v) for k, n, v in self.inputs if k == 'choice']
        self.candidates.append({'what': what, 'env': dict(env or {}), 'plan': [x[0] for x in self.plan[:self.pos]],
                                'choices': [[n, v] for k, n, v in choices]})
        raise Found


def default_value(at):
    lo, hi = at.lo, at.hi
    if lo == -math.inf and hi == math.inf:
        return 0.0
    if lo == -math.inf:
        return min(0.0, hi)
    if hi == math.inf:
        return max(0.0, lo)
    m = (lo + hi) / 2
    return float(round(m)) if at.isint else m


def zval(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None
