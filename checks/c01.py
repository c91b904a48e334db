"""C01: minimum-image distances."""
from engine.harness import H
from .common import system

PROPERTY = dict(
    title='Distances and displacement vectors follow the minimum-image convention',
    statement='For any two atoms of a periodic system, every distance the library reports (distance query, pair distances, neighbor distance) '
              'and every displacement vector is that of the periodic image whose fractional offset lies within half a box vector along each '
              'box direction, for orthogonal as well as triclinic boxes; for orthogonal boxes no other image is closer. The distance is the '
              'Euclidean length of the reported vector, symmetric in the two atoms, and does not change when an atom is moved by a box vector '
              'to an equivalent position.',
    quantifier=dict(over=['inputs', 'configurations'], text='all box edges and tilts, all pairs of positions in the box'),
    why_tests_cant='The tests query a handful of positions of perfect crystals in two or three boxes; the wrap is a case split per axis and sign '
                   'for every box shape, implemented three times (query, vector query, internal).',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='get_abs_distance / get_distance_vector', where='system.cpp'), dict(name='get_distance', where='core.py')],
                 observe_at=['System.get_distance', 'System.get_pairdistances', 'Atom.neighbor_distance', 'Atom.neighbor_vector']))

BOUNDS = ('2 atoms; orthogonal boxes with three symbolic edges in [1,20] and all fractional coordinates symbolic in [0,1); triclinic boxes: '
          'rows with one symbolic edge or one symbolic tilt factor (|tilt| <= 0.6 of an edge) or 9 fixed non-zero entries, fractional '
          'coordinates symbolic in [0,1); shift by one box vector in each direction')
OUTSIDE = 'floating point rounding; separations within 1e-4 of half a box vector; more than one symbolic tilt factor at once'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'separations are below 1.5 box vectors in each direction']

CELLS = {
    'lower': ([[6, 0, 0], [2, 5, 0], [1, -1, 7]]),
    'upper': ([[6, 1, -1], [0, 5, 2], [0, 0, 7]]),
    'full': ([[4, 1, -1], [-1, 5, 1], [1, -1, 6]]),
    'hex': ([[4, 0, 0], [-2, 3, 0], [0, 0, 7]]),
    'fcc': ([[0, 3, 3], [3, 0, 3], [3, 3, 0]]),
}


def images(E, box, f, g):
    """expected displacement: wrap each fractional difference f-g to [-1/2, 1/2]"""
    n = []
    for i in range(3):
        d = f[i] - g[i]
        if not (d > -0.5):
            n.append(1)
        elif d > 0.5:
            n.append(-1)
        else:
            n.append(0)
    return [sum((f[i] - g[i] + n[i]) * box[i][k] for i in range(3)) for k in range(3)]


def cart(box, f):
    return [sum(f[i] * box[i][k] for i in range(3)) for k in range(3)]


def fracs(E, axes):
    f, g = [0.25, 0.75, 0.5], [0.5, 0.125, 0.625]
    for i in axes:
        f[i] = E.real('f%d' % i, 0, 0.999)
        g[i] = E.real('g%d' % i, 0, 0.999)
        E.apart(f[i] - g[i], 0.5, 1e-4)
        E.apart(f[i] - g[i], -0.5, 1e-4)
    return f, g


def verify(E, s, want, tol=1e-6):
    a, b = s.get_atom(0), s.get_atom(1)
    d, v = s.get_distance(a, b, vector=True)
    d1 = s.get_distance(a, b)
    d2, w = s.get_distance(b, a, vector=True)
    E.observe('d', d)
    E.observe('v', v)
    E.eqs(v, want, 'displacement vector', tol)
    E.eqs(w, [-x for x in want], 'reverse displacement vector', tol)
    dd = E.dot(want, want)
    E.eq(d * d, dd, 'squared distance', tol)
    E.eq(d1 * d1, dd, 'squared distance without vector', tol)
    E.eq(d2 * d2, dd, 'squared distance of the swapped pair', tol)
    E.check(d >= 0, 'distance is not negative')
    p = s.get_pairdistances()
    E.check(len(p) == 1, 'one pair distance for two atoms')
    E.eq(p[0] * p[0], dd, 'squared pair distance', tol)
    return dd


def ortho(E, axes):
    L = [E.real('L%d' % i, 1, 20) for i in range(3)]
    box = [[L[0], 0, 0], [0, L[1], 0], [0, 0, L[2]]]
    f, g = fracs(E, axes)
    s = system(E, box, [cart(box, f), cart(box, g)])
    dd = verify(E, s, images(E, box, f, g))
    # no image is closer
    for n in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)):
        u = [x + k for x, k in zip(images(E, box, f, g), cart(box, n))]
        E.check(dd <= E.dot(u, u) + 1e-6, 'image %s is not closer' % (n,))
    E.done()


def tri(E, cell, axes):
    box = [list(r) for r in CELLS[cell]]
    f, g = fracs(E, axes)
    s = system(E, box, [cart(box, f), cart(box, g)])
    verify(E, s, images(E, box, f, g))
    E.done()


def tilt(E, entry, axes):
    """one symbolic off-diagonal entry (bounded away from zero: a zero tilt is an orthogonal box)"""
    box = [[5, 0, 0], [0, 6, 0], [0, 0, 8]]
    i, j = entry
    t = E.real('tilt', -3, 3)
    E.apart(t, 0, 0.01)
    box[i][j] = t
    f, g = fracs(E, axes)
    s = system(E, box, [cart(box, f), cart(box, g)])
    verify(E, s, images(E, box, f, g))
    E.done()


def shifted(E, cell, axis):
    """moving one atom by a box vector leaves the distance unchanged"""
    box = [[4, 0, 0], [0, 6, 0], [0, 0, 7]] if cell == 'ortho' else [list(r) for r in CELLS[cell]]
    f, g = [0.25, 0.75, 0.5], [0.5, 0.125, 0.625]
    f[axis] = E.real('f', 0, 0.45)
    g[axis] = E.real('g', 0, 0.45)
    n = E.choice('n', [-1, 1])
    h = list(f)
    h[axis] = h[axis] + n
    s = system(E, box, [cart(box, h), cart(box, g)])
    verify(E, s, images(E, box, f, g))
    E.done()


def neighbors(E, cell, axes):
    """the same convention in the neighbor lists"""
    if cell == 'ortho':
        box = [[E.real('L', 4, 8), 0, 0], [0, 6, 0], [0, 0, 7]]
    else:
        box = [list(r) for r in CELLS[cell]]
    f, g = fracs(E, axes)
    s = system(E, box, [cart(box, f), cart(box, g)])
    s.find_neighbors(method='cutoff', cutoff=50)
    want = images(E, box, f, g)
    dd = E.dot(want, want)
    E.assume(dd > 1e-4)
    for i, sg in ((0, -1), (1, 1)):
        a = s.get_atom(i)
        E.same(a.neighbors, [1 - i], 'neighbors of atom %d' % i)
        d = a.neighbor_distance[0]
        E.eq(d * d, dd, 'squared neighbor distance of atom %d' % i)
        v = a.neighbor_vector[0]
        E.eqs(v, [sg * x for x in want], 'neighbor vector of atom %d' % i)
    E.done()


HARNESSES = [
    H('orthogonal', ortho, [{'axes': [0]}, {'axes': [1]}, {'axes': [2]}, {'axes': [0, 1, 2]}]),
    H('triclinic', tri, [{'cell': c, 'axes': [0, 1, 2]} for c in CELLS]),
    H('tilt', tilt, [{'entry': e, 'axes': [i]} for i, e in enumerate([(1, 0), (2, 0), (2, 1)])],
      [{'entry': (i, j), 'axes': [k]} for i in range(3) for j in range(3) for k in range(3) if i != j]),
    H('shifted', shifted, [{'cell': c, 'axis': i} for c in ('ortho', 'lower', 'full') for i in range(3)]),
    H('neighbors', neighbors, [{'cell': 'ortho', 'axes': [i]} for i in range(3)] + [{'cell': 'full', 'axes': [i]} for i in range(3)]),
]
