"""C06: Steinhardt parameters."""
from fractions import Fraction
from engine.harness import H
from .common import system, ortho_box
from .c18 import Grid, use

PROPERTY = dict(
    title='q_l of an atom is the rotationally invariant sum over its neighbor bonds',
    statement='For every l from 2 to 12, q_l squared of an atom equals the weighted mean of the Legendre polynomial P_l of the cosine of the angle between '
              'every two of its neighbor bonds, so it does not depend on the orientation, on bond lengths, on the order of the neighbors or on the '
              'other l requested.  The complex components that are stored with it have the same norm and are conjugate-symmetric in m, all accessors '
              'return the same values, and with a condition only neighbors in the same state as the atom contribute.',
    quantifier=dict(over=['inputs', 'configurations'], text='all neighbor positions, weights, degrees l, requests and conditions'),
    why_tests_cant='The tests look at q4 and q6 of a perfect bcc crystal, where most components vanish by symmetry; orientations, odd degrees, weights '
                   'and conditions stay untested.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py', 'src/pyscal/atom.cpp'],
                 mechanism=[dict(name='calculate_q, QLM, YLM, PLM, dfactorial, convert_to_spherical_coordinates', where='system.cpp'),
                            dict(name='calculate_q, get_qvals', where='core.py'), dict(name='get_qcomps, gq_big', where='atom.cpp')],
                 observe_at=['System.get_qvals', 'Atom.get_q', 'Atom.get_qlm', 'Atom.allq']))

BOUNDS = ('3 to 4 atoms, one neighbor moving on a symbolic line or in a symbolic plane, symbolic weights in [0.5,3]; l = 2 to 12; '
          'symbolic conditions of all atoms; Voronoi weights of 27 atoms on a grid')
OUTSIDE = 'rounding; atoms without (matching) neighbors, for which q is undefined; neighbors exactly on the polar axis in symbolic position'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']


def legendre(l, x):
    p, q = 1, x
    if l == 0:
        return p
    for k in range(2, l + 1):
        p, q = q, (Fraction(2 * k - 1, k) * x * q - Fraction(k - 1, k) * p)
    return q


def lg(E, l, x):
    if E.concrete:
        p, q = 1.0, x
        for k in range(2, l + 1):
            p, q = q, ((2 * k - 1) * x * q - (k - 1) * p) / k
        return q
    return legendre(l, x)


C = (20, 20, 20)
BOX = ortho_box(40, 41, 42)


def bonds(E, l, vs, ws):
    """sum of w_i w_j P_l(cos(i,j)) and sum of weights"""
    t = 0
    for i, v in enumerate(vs):
        t = t + ws[i] * ws[i]
        for j in range(i):
            c = E.div(E.dot(v, vs[j]), E.norm(v) * E.norm(vs[j]))
            t = t + 2 * ws[i] * ws[j] * lg(E, l, c)
    return t, sum(ws)


def verify(E, s, i, l, vs, ws, tag=''):
    t, w = bonds(E, l, vs, ws)
    a = s.get_atom(i)
    q = a.get_q(l)
    E.check(q >= 0, tag + 'q%d of atom %d is not negative' % (l, i))
    E.eq(q * q * w * w, t, tag + 'square of q%d of atom %d' % (l, i), 1e-6)
    return q


def place(vs):
    return [list(C)] + [[C[k] + v[k] for k in range(3)] for v in vs]


def circle(E, name):
    """cosine and sine of an arbitrary angle"""
    c = E.real('cos_' + name, -1, 1)
    return c, E.choice('sign_' + name, (1, -1)) * E.sqrt(1 - c * c)


def alone(s, n):
    """only atom 0 keeps its neighbors (the work for the others is left out)"""
    for i in range(1, n):
        a = s.get_atom(i)
        a.neighbors = []
        s.set_atom(a)


def turning(E, l, z):
    """a neighbor moves around the polar axis"""
    c, s_ = circle(E, 'phi')
    vs = [[E.const(c) for c in v] for v in ([2, 1, 2], [-1, 2, -2])]
    vs.append([2.5 * c, 2.5 * s_, E.const(z)])
    s = system(E, BOX, place(vs))
    s.find_neighbors(method='cutoff', cutoff=5)
    alone(s, 4)
    s.calculate_q(l)
    verify(E, s, 0, l, vs, [1, 1, 1])
    E.done()


def meridian(E, l, phi):
    """a neighbor moves from pole to pole"""
    z = E.real('z', -0.999, 0.999)
    rho = E.sqrt(1 - z * z)
    c, d = [E.frac(x, 5) for x in ((3, 4), (-3, -4), (0, 5), (4, -3), (5, 0))[phi]]
    vs = [[E.const(c) for c in v] for v in ([2, 1, 2], [-1, 2, -2])]
    vs.append([3 * rho * c, 3 * rho * d, 3 * z])
    s = system(E, BOX, place(vs))
    s.find_neighbors(method='cutoff', cutoff=5)
    alone(s, 4)
    s.calculate_q(l)
    verify(E, s, 0, l, vs, [1, 1, 1])
    E.done()


def accessors(E, ls, order):
    """several degrees at once, symbolic weights; components and all accessors agree"""
    vs = [[2, 1, 2], [-1, 2, -2], [-2, 2, 1], [0, 0, 2.5]][:3 + (order > 1)]
    vs = [[E.const(c) for c in v] for v in vs]
    n = len(vs)
    s = system(E, BOX, place(vs))
    s.find_neighbors(method='cutoff', cutoff=5)
    alone(s, n + 1)
    w = [E.real('w%d' % i, 0.5, 3) if i < 2 else 1.5 for i in range(n)]
    a = s.get_atom(0)
    E.same(list(a.neighbors), list(range(1, n + 1)), 'neighbors')
    a.neighbor_weights = w
    s.set_atom(a)
    s.calculate_q(ls if order else ls[0])
    a = s.get_atom(0)
    got = list(ls) if order else ls[:1]
    for l in got:
        q = verify(E, s, 0, l, vs, w)
        comp = a.get_qlm(l)
        E.same(len(comp), 2 * l + 1, 'number of components')
        E.eq(sum((x.real * x.real + x.imag * x.imag) for x in comp) * E.const(4 * PI / (2 * l + 1)), q * q, 'norm of the components', 1e-6)
        for m in range(l + 1):
            sg = -1 if m % 2 else 1
            E.eq(comp[l - m].real, sg * comp[l + m].real, 'component %d' % -m)
            E.eq(comp[l - m].imag, -sg * comp[l + m].imag, 'component %d' % -m)
        E.eq(s.get_qvals(l)[0], q, 'get_qvals')
        E.eq(a.allq[l - 2], q, 'allq')
    E.eqs(a.get_q(got), [a.get_q(l) for l in got], 'get_q of a list')
    E.eqs([x[0] for x in s.get_qvals(got)], [a.get_q(l) for l in got], 'get_qvals of a list')
    E.done()


def conditions(E, l, kind):
    """only neighbors in the state of the atom count"""
    vs = [[E.const(c) for c in v] for v in ([2, 1, 2], [-1, 2, -2], [-2, -2, 1])]
    s = system(E, BOX, place(vs))
    s.find_neighbors(method='cutoff', cutoff=6)
    st = [E.choice('state%d' % i, (0, 1)) for i in range(4)]
    if kind == 'function':
        for i in range(4):
            a = s.get_atom(i)
            a.type = 1 + st[i]
            s.set_atom(a)
        s.calculate_q(l, condition=lambda a: a.type == 2)
    elif kind == 'attribute':
        for i in range(4):
            a = s.get_atom(i)
            a.surface = st[i]
            s.set_atom(a)
        s.calculate_q([l], condition='surface')
    else:
        for i in range(4):
            a = s.get_atom(i)
            a.custom = {'mark': st[i]}
            s.set_atom(a)
        s.calculate_q([l], condition='mark')
        if kind == 'cleared':
            s.calculate_q(l, clear_condition=True)
            st = [0] * 4
    p = place(vs)
    for i in range(4):
        E.same(s.get_atom(i).condition, st[i], 'condition of atom %d' % i)
        b = [[p[j][k] - p[i][k] for k in range(3)] for j in range(4) if j != i and st[j] == st[i]]
        if b:
            verify(E, s, i, l, b, [1] * len(b))
    E.done()


def voronoi(E, l, alpha, filt):
    """weights from Voronoi faces, some of the neighbors in another state or left out by the filter"""
    x = E.real('x', 2.75, 5.75)
    g = Grid(E, [[1, x, 7.5], [2, 5.5, 8], [0.5, 3, 7]], [10, 11, 12], 'ortho')
    types = [1 + (i % 5 in (1, 2)) for i in range(27)]
    s = system(E, g.box, g.pos, types)
    use(E, g)
    s.find_neighbors(method='voronoi', voroexp=alpha, **({'filter': 'type'} if filt else {}))
    for i in range(27):
        if i not in (4, 13):
            a = s.get_atom(i)
            a.neighbors = []
            s.set_atom(a)
    if filt:
        s.calculate_q(l)
    else:
        s.calculate_q(l, condition=lambda a: a.type == 2)
    for i in (4, 13):
        vs, ws = [], []
        side = [c[0] + c[1] for c in g.cells_[i]]
        for b in range(3):
            u, v = [side[d] for d in range(3) if d != b]
            for z in (0, 1):
                if types[g.cells_[i][b][2][z]] == types[i]:
                    vs.append([E.const((2 * z - 1) * (c == b)) for c in range(3)])
                    ws.append((u * v) ** alpha)
        E.check(0 < len(ws) < 6, 'some neighbors take part')
        verify(E, s, i, l, vs, ws)
    E.done()


PI = 3.141592653589793

HARNESSES = [
    H('turning', turning, [{'l': l, 'z': z} for l, z in ((2, 1), (3, -1), (4, 0.5), (5, 2), (6, 1), (7, -2), (8, 1), (9, 1), (10, -1), (11, 1), (12, 1))],
      [{'l': l, 'z': z} for l in range(2, 13) for z in (0, 1, -2.25)]),
    H('meridian', meridian, [{'l': l, 'phi': l % 4} for l in range(2, 13)], [{'l': l, 'phi': i} for l in range(2, 13) for i in range(5)]),
    H('accessors', accessors, [{'ls': [4, 6], 'order': 1}, {'ls': [6, 4, 3], 'order': 2}, {'ls': [5], 'order': 0}, {'ls': [12, 2], 'order': 1}],
      [{'ls': x, 'order': o} for x in ([4, 6], [12, 11, 2], [9, 8, 3], [5, 7, 10]) for o in range(3)]),
    H('conditions', conditions, [{'l': 4, 'kind': 'function'}, {'l': 6, 'kind': 'attribute'}, {'l': 3, 'kind': 'custom'}, {'l': 2, 'kind': 'cleared'}]),
    H('voronoi', voronoi, [{'l': 4, 'alpha': 1, 'filt': False}, {'l': 6, 'alpha': 2, 'filt': True}],
      [{'l': l, 'alpha': a, 'filt': f} for l in (2, 4, 5, 6) for a in (1, 2) for f in (False, True)]),
]
