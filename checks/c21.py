"""C21: angles between bonds (chi parameters, angular criterion)."""
from engine.harness import H
from .common import system, small_system, ortho_box
from .c06 import circle, alone

PROPERTY = dict(
    title='Chi parameters and the angular criterion describe the angles between bonds',
    statement='The chi parameters of an atom count, for every pair of its neighbor bonds, the documented interval of cosines that the angle between '
              'the two bonds falls in, and the cosines are those returned on request.  The angular criterion is the sum of (cos+1/3)^2 over the six '
              'pairs of its four nearest neighbors, whatever the order of the neighbor list.  Bonds are taken across the periodic boundary, also in '
              'small systems, and the calculation leaves positions and neighbor lists of all atoms as they were.',
    quantifier=dict(over=['inputs', 'configurations'], text='all neighbor positions, orders of the neighbor list and boxes'),
    why_tests_cant='The tests look at single perfect crystals where all bonds are equal and only a few angles occur.',
    anchors=dict(files=['src/pyscal/core.py', 'src/pyscal/atom.cpp', 'src/pyscal/system.cpp'],
                 mechanism=[dict(name='calculate_chiparams, calculate_angularcriteria', where='core.py')],
                 observe_at=['Atom.chiparams', 'Atom.angular', "Atom.custom['cosines']"]))

BOUNDS = ('3 to 6 neighbors, one of them on a symbolic circle or at two symbolic distances (all orders of distances), atoms inside the box and across '
          'its boundary; small systems of 1 atom with copies in a cell with symbolic shear')
OUTSIDE = 'cosines within 1e-6 of the limit of an interval (also exactly opposite bonds in symbolic position), equally distant fourth and fifth neighbors'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']

BINS = [-1.0, -0.945, -0.915, -0.755, -0.705, -0.195, 0.195, 0.245, 0.795, 1.0]
L = (40, 41, 42)


def put(origin, vs):
    """positions of an atom and its neighbors, those that leave the box come in on the other side"""
    out = [list(origin)]
    for v in vs:
        p = []
        for k in range(3):
            x = origin[k] + v[k]
            if x < 0:
                x = x + L[k]
            p.append(x)
        out.append(p)
    return out


ORIGINS = {'inside': (20, 20, 20), 'corner': (0.5, 1, 0.25)}
DIRS = [[2, 1, 2], [-1, 2, -2], [-2, 2, 1], [-2, -2, 1], [0, -3, 4]]
LEN = [3, 3, 3, 3, 5]


def cosine(E, u, v):
    return E.div(E.dot(u, v), E.norm(u) * E.norm(v))


def cosines(E, vs):
    return [cosine(E, vs[i], vs[j]) for i in range(len(vs)) for j in range(i)]


def chi(E, cs):
    out = [0] * 9
    for c in cs:
        for b in BINS:
            E.apart(c, E.const(b))
        for k in range(9):
            if c < BINS[k + 1]:
                out[k] += 1
                break
    return out


def start(E, where, vs):
    s = system(E, ortho_box(*L), put(ORIGINS[where], vs))
    s.find_neighbors(method='cutoff', cutoff=15)
    alone(s, len(vs) + 1)
    return s


def pairs(E, where, n, z, angles):
    """a neighbor moves on a circle"""
    c, d = circle(E, 'phi')
    vs = [[E.const(x) for x in v] for v in DIRS[1:n]]
    vs.insert(n // 2, [3 * c, 3 * d, E.const(z)])
    s = start(E, where, vs)
    s.calculate_chiparams(angles=angles)
    cs = cosines(E, vs)
    a = s.get_atom(0)
    E.same(list(a.chiparams), chi(E, cs), 'chi parameters')
    if angles:
        got = list(a.custom['cosines'])
        E.same(len(got), len(cs), 'number of cosines')
        for p in (1, 2, 3):
            E.eq(sum(x ** p for x in got), sum(x ** p for x in cs), 'cosines (sum of powers %d)' % p)
    kept(E, s, vs)
    E.done()


def kept(E, s, vs):
    E.same(sorted(s.get_atom(0).neighbors), list(range(1, len(vs) + 1)), 'neighbors after the calculation')
    a = s.get_atom(0)
    for i in range(len(vs)):
        E.eqs(s.get_distance(a, s.get_atom(i + 1), vector=True)[1], [-x for x in vs[i]], 'position of neighbor %d' % i)


def nearest(E, where, n, moving):
    """distances of some neighbors vary, the four nearest take part"""
    rs = [2.5 + 0.25 * i for i in range(n)]
    for i in moving:
        rs[i] = E.real('r%d' % i, 1, 7)
    dirs = [[E.frac(x, LEN[i]) for x in DIRS[i]] for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.apart(rs[i], rs[j])
    vs = [[rs[i] * x for x in dirs[i]] for i in range(n)]
    s = start(E, where, vs)
    s.calculate_angularcriteria()
    top = []
    for i in range(n):
        if sum(1 for j in range(n) if j != i and bool(rs[j] < rs[i])) < 4:
            top.append(dirs[i])
    E.eq(s.get_atom(0).angular, sum((c + E.frac(1, 3)) ** 2 for c in cosines(E, top)), 'angular criterion')
    E.done()


def around(E, where, z):
    """angular criterion while a neighbor moves on a circle"""
    c, d = circle(E, 'phi')
    vs = [[E.const(x) for x in v] for v in DIRS[1:4]] + [[2 * c, 2 * d, E.const(z)]]
    s = start(E, where, vs)
    s.calculate_angularcriteria()
    E.eq(s.get_atom(0).angular, sum((c + E.frac(1, 3)) ** 2 for c in cosines(E, vs)), 'angular criterion')
    E.done()


def small(E, first):
    """one atom and its copies in a sheared cell"""
    t = E.real('shear', 0.25, 1)
    box = [[4, 0, 0], [t, 5, 0], [0, 0, 9]]
    s = small_system(E, box, [[1, 2, 3]])
    s.find_neighbors(method='cutoff', cutoff=5.5)
    v = [[E.const(4), E.const(0), E.const(0)], [t, E.const(5), E.const(0)]]
    c = cosine(E, *v)
    before = [sorted(x.neighbors) for x in s.get_all_atoms()]
    E.same(len(before[0]), 4, 'neighbors')
    for what in (('chi', 'angular') if first == 'chi' else ('angular', 'chi')):
        if what == 'chi':
            s.calculate_chiparams(angles=True)
            got = list(s.atoms[0].custom['cosines'])
            E.same(len(got), 6, 'number of cosines')
            for p in (1, 2, 3):
                E.eq(sum(x ** p for x in got), 2 * (-1) ** p + 2 * c ** p + 2 * (-c) ** p, 'cosines (sum of powers %d)' % p)
        else:
            s.calculate_angularcriteria()
            w = E.frac(1, 3)
            E.eq(s.atoms[0].angular, 2 * (w - 1) ** 2 + 2 * (w + c) ** 2 + 2 * (w - c) ** 2, 'angular criterion')
        E.same([sorted(x.neighbors) for x in s.get_all_atoms()], before, 'neighbors of all atoms after the calculation')
        E.same([bool(x.ghost) for x in s.get_all_atoms()], [i > 0 for i in range(27)], 'copies')
    E.done()


HARNESSES = [
    H('pairs', pairs, [{'where': w, 'n': n, 'z': z, 'angles': a} for w, n, z, a in (('inside', 3, 1, False), ('corner', 4, -0.5, True), ('inside', 4, 2, True))],
      [{'where': w, 'n': n, 'z': z, 'angles': a} for w in ORIGINS for n in (3, 4, 5) for z in (0.5, -2) for a in (False, True)]),
    H('nearest', nearest, [{'where': w, 'n': n, 'moving': m} for w, n, m in (('inside', 5, [4]), ('corner', 5, [2]), ('inside', 4, [1]), ('corner', 3, [0]))],
      [{'where': w, 'n': n, 'moving': m} for w in ORIGINS for n in (3, 4, 5) for m in ([0], [2], [0, 2], [0, 1, n - 1])]),
    H('around', around, [{'where': 'inside', 'z': 1}, {'where': 'inside', 'z': -0.5}], [{'where': 'inside', 'z': z} for z in (0, 1, -1, 2, -3)]),
    H('small', small, [{'first': 'chi'}, {'first': 'angular'}]),
]
