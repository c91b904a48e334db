"""C02: cutoff neighbor lists."""
from engine.harness import H
from .common import system, ortho_box
from .c01 import CELLS

PROPERTY = dict(
    title='A cutoff neighbor search finds exactly the atoms within the cutoff',
    statement='After a neighbor search with a given cutoff, the neighbor list of every atom holds exactly the other atoms whose minimum-image '
              'distance is below the cutoff, each once, so that the relation is symmetric; coordination, neighbor distances, displacement '
              'vectors, spherical angles and unit weights agree entry by entry with that list. With the type filters only neighbors of the same '
              '(type) or of a different (type_r) atom type are kept, and a repeated search gives the same result as a first one.',
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all positions, boxes, cutoffs, type assignments and filters'),
    why_tests_cant='Tests compare coordination numbers of perfect bcc/fcc crystals for a few cutoffs; they never compare the list with the definition '
                   'for arbitrary positions, nor the vectors and angles with the list.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py', 'src/pyscal/atom.cpp'],
                 mechanism=[dict(name='get_all_neighbors_normal, reset_all_neighbors', where='system.cpp'), dict(name='find_neighbors', where='core.py')],
                 observe_at=['Atom.neighbors', 'Atom.neighbor_distance', 'Atom.neighbor_vector', 'Atom.local_angles', 'Atom.neighbor_weights', 'Atom.coordination']))

BOUNDS = ('2 to 4 atoms; box orthogonal (10,11,12) or one of 2 triclinic cells; one or two atoms with all three coordinates symbolic; cutoff symbolic '
          'in [0.5,5]; types symbolic in {1,2}; both filters; up to 2 searches in a row')
OUTSIDE = 'rounding; pairs within 1e-6 of the cutoff; more than 300 neighbors per atom; 2300 atoms and more (cell lists, C03)'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'no two atoms coincide']


def image(E, box, p, q):
    """q - p, wrapped (orthogonal box)"""
    v = []
    for i in range(3):
        d = q[i] - p[i]
        L = box[i][i]
        if d > L / 2:
            d = d - L
        elif d < -(L / 2):
            d = d + L
        v.append(d)
    return v


def verify(E, s, box, pos, cut, keep=lambda i, j: True, angles=True, tag='', dist=None):
    n = len(pos)
    want = {}
    for i in range(n):
        for j in range(i + 1, n):
            v = image(E, box, pos[i], pos[j]) if dist is None else dist(i, j)
            d2 = E.dot(v, v)
            want[i, j] = (d2, v)
            want[j, i] = (d2, [-x for x in v])
    for i in range(n):
        a = s.get_atom(i)
        ns = list(a.neighbors)
        exp = [j for j in range(n) if j != i and bool(want[i, j][0] < cut * cut) and keep(i, j)]
        E.same(sorted(ns), exp, tag + 'neighbors of atom %d' % i)
        E.eq(a.cutoff, cut, tag + 'cutoff of atom %d' % i)
        E.same(a.coordination, len(exp), tag + 'coordination of atom %d' % i)
        d, v, w, ang = a.neighbor_distance, a.neighbor_vector, a.neighbor_weights, a.local_angles
        E.observe('n%d' % i, sorted(ns))
        for x, nm in ((d, 'distances'), (v, 'vectors'), (w, 'weights')):
            E.same(len(x), len(exp), tag + 'number of neighbor %s of atom %d' % (nm, i))
        for k, j in enumerate(ns):
            d2, u = want[i, j]
            E.check(d[k] >= 0, tag + 'distance not negative')
            E.eq(d[k] * d[k], d2, tag + 'squared distance of neighbor %d of atom %d' % (k, i), 1e-6)
            E.eqs(v[k], u, tag + 'vector of neighbor %d of atom %d' % (k, i), 1e-6)
            E.eq(w[k], 1, tag + 'weight of neighbor %d of atom %d' % (k, i))
            if angles:
                phi, theta = ang[k][0], ang[k][1]
                r = d[k]
                E.eqs([r * E.sin(theta) * E.cos(phi), r * E.sin(theta) * E.sin(phi), r * E.cos(theta)], u,
                      tag + 'spherical coordinates of neighbor %d of atom %d' % (k, i), 1e-6)


def pair(E, axes):
    """two atoms, positions symbolic along the given axes; cutoff symbolic"""
    box = ortho_box(10, 11, 12)
    p, q = [5, 5, 5], [6, 7, 4]
    for i in axes:
        p[i] = E.real('p%d' % i, 0, 9.99)
        q[i] = E.real('q%d' % i, 0, 9.99)
    cut = E.real('cut', 0.5, 5)
    s = system(E, box, [p, q])
    v = image(E, box, p, q)
    d2 = E.dot(v, v)
    E.assume(d2 > 0.01)
    E.apart(d2, cut * cut, 1e-4)
    s.find_neighbors(method='cutoff', cutoff=cut)
    verify(E, s, box, [p, q], cut, angles=len(axes) == 1)
    E.done()


def triple(E, where):
    """three atoms, one anywhere along two directions, fixed cutoff"""
    box = ortho_box(10, 11, 12)
    m = {'corner': [9, 10, 11], 'mid': [5, 5, 5]}[where]
    x = [E.real('x%d' % i, -3, 3) for i in range(2)]
    pos = [[1, 1, 1], [(m[0] + x[0]), (m[1] + x[1]), m[2]], [2, 3, 11] if where == 'corner' else [4, 7, 6]]
    cut = E.real('cut', 3, 5)
    s = system(E, box, pos)
    for i in range(3):
        for j in range(i):
            v = image(E, box, pos[i], pos[j])
            E.assume(E.dot(v, v) > 0.01)
            E.apart(E.dot(v, v), cut * cut, 1e-4)
    s.find_neighbors(method='cutoff', cutoff=cut)
    verify(E, s, box, pos, cut, angles=False)
    E.done()


def filtered(E, filt, n):
    """type filter, symbolic types; history: an unfiltered search precedes"""
    box = ortho_box(10, 11, 12)
    pos = [[1, 1, 1], [9.5, 1, 1], [1, 3, 1.5], [2, 2, 11.5]][:n]
    t = [E.int('t%d' % i, 1, 2) for i in range(n)]
    cut = E.real('cut', 2.1, 3)
    for d2 in (2.25, 4.25, 5.25, 6, 6.5, 7.25, 8, 9):
        E.apart(cut * cut, d2, 1e-4)
    s = system(E, box, pos, types=t)
    if E.choice('before', [0, 1]):
        s.find_neighbors(method='cutoff', cutoff=4)
    s.find_neighbors(method='cutoff', cutoff=cut, filter=filt)
    verify(E, s, box, pos, cut, keep=lambda i, j: bool(t[i] == t[j]) == (filt == 'type') if filt else True, angles=False)
    # and back to an unfiltered search
    s.find_neighbors(method='cutoff', cutoff=cut)
    verify(E, s, box, pos, cut, angles=False, tag='after filtered search: ')
    E.done()


def repeated(E):
    """a second search with another cutoff replaces the first"""
    box = ortho_box(10, 11, 12)
    pos = [[1, 1, 1], [9, 1, 1], [1, 4, 1], [3, 3, 3]]
    c = [E.real('c%d' % i, 1, 5) for i in range(2)]
    for x in c:
        for d2 in (4, 9, 12, 9 + 4, 17, 24, 9 + 16, 9):
            E.apart(x * x, d2, 1e-4)
    s = system(E, box, pos)
    for k, x in enumerate(c):
        s.find_neighbors(method='cutoff', cutoff=x)
        verify(E, s, box, pos, x, angles=False, tag='search %d: ' % k)
    s.reset_neighbors()
    for i in range(4):
        E.same(len(s.get_atom(i).neighbors), 0, 'neighbors after a reset')
    E.done()


def triclinic(E, cell):
    """triclinic box, one atom along a line of fractional coordinates"""
    box = [list(r) for r in CELLS[cell]]
    f = E.real('f', 0, 0.999)
    fr = [[0.1, 0.2, 0.3], [f, 0.1, 0.4], [0.9, f, 0.25]]
    pos = [[sum(x[i] * box[i][k] for i in range(3)) for k in range(3)] for x in fr]

    def dist(i, j):
        d = []
        for k in range(3):
            x = fr[j][k] - fr[i][k]
            if x > 0.5:
                x = x - 1
            elif x < -0.5:
                x = x + 1
            d.append(x)
        return [sum(d[i] * box[i][k] for i in range(3)) for k in range(3)]
    cut = E.real('cut', 2, 4)
    for i in range(3):
        for j in range(i + 1, 3):
            for k in range(3):
                E.apart(fr[j][k] - fr[i][k], 0.5, 1e-3)
                E.apart(fr[j][k] - fr[i][k], -0.5, 1e-3)
            v = dist(i, j)
            E.assume(E.dot(v, v) > 0.01)
            E.apart(E.dot(v, v), cut * cut, 1e-4)
    s = system(E, box, pos)
    s.find_neighbors(method='cutoff', cutoff=cut)
    verify(E, s, box, pos, cut, angles=False, dist=dist)
    E.done()


HARNESSES = [
    H('pair', pair, [{'axes': [0]}, {'axes': [1]}, {'axes': [2]}, {'axes': [0, 1]}, {'axes': [1, 2]}],
      [{'axes': [0]}, {'axes': [1]}, {'axes': [2]}, {'axes': [0, 1]}, {'axes': [0, 2]}, {'axes': [1, 2]}, {'axes': [0, 1, 2]}]),
    H('triple', triple, [{'where': 'corner'}, {'where': 'mid'}]),
    H('filtered', filtered, [{'filt': 'type', 'n': 3}, {'filt': 'type_r', 'n': 3}], [{'filt': f, 'n': n} for f in ('type', 'type_r') for n in (3, 4)]),
    H('repeated', repeated, [{}]),
    H('triclinic', triclinic, [{'cell': 'full'}, {'cell': 'hex'}], [{'cell': c} for c in CELLS]),
]
