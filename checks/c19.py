"""C19: Voronoi vectors."""
from engine.harness import H
from .common import system, ortho_box
from .c18 import Grid, use
from .c06 import alone

PROPERTY = dict(
    title='The Voronoi vector counts the faces of a cell by their relevant edges',
    statement='The edge lengths of a face are the distances between consecutive vertices, around the whole face, and the Voronoi vector counts how '
              'many faces with a share of the cell surface of at least area_cutoff have three, four, five and six edges with a share of the perimeter of at least '
              'edge_cutoff; other faces are not counted.  It can be calculated again with other cutoffs, leaves volumes, neighbors and faces as they were, '
              'and does not depend on the order of the faces.',
    quantifier=dict(over=['inputs', 'configurations'], text='all cells and cutoffs'),
    why_tests_cant='The tests look at one perfect bcc crystal with cutoffs that are not reached.',
    anchors=dict(files=['src/pyscal/core.py', 'src/pyscal/system.cpp'], mechanism=[dict(name='calculate_vorovector', where='core.py'),
                                                                                 dict(name='get_all_neighbors_voronoi', where='system.cpp')],
                 observe_at=['System.calculate_vorovector', 'Atom.vorovector', 'Atom.edge_lengths']))

BOUNDS = ('cuboid cells of 27 atoms with a symbolic plane, several pairs of cutoffs; a cell with faces of three to seven vertices, one or two edges of '
          'symbolic length, in several orders')
OUTSIDE = 'shares within 1e-6 of a cutoff; exponents of weights above 2; voro++ itself (as in C18)'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'voro++ returns the Voronoi cells of the positions and the box it is given']


def grade(E, faces, ec, ac):
    """faces: list of (area, edges); the Voronoi vector"""
    tot = sum(f[0] for f in faces)
    out = [0] * 4
    ac, ec = E.const(ac), E.const(ec)
    for area, edges in faces:
        E.apart(area, ac * tot)
        if not (area > ac * tot):
            continue
        p = sum(edges)
        n = 0
        for e in edges:
            E.apart(e, ec * p)
            if e > ec * p:
                n += 1
        if 3 <= n <= 6:
            out[n - 3] += 1
    return out


def cuboids(E, kind, cutoffs, alpha=1):
    x = E.real('x', 2.75, 5.75)
    g = Grid(E, [[1, x, 7.5], [2, 5.5, 8], [0.5, 3, 7]], [10, 11, 12], kind)
    s = system(E, g.box, g.pos)
    use(E, g)
    s.find_neighbors(method='voronoi', voroexp=alpha)
    vol = [s.get_atom(i).volume for i in range(27)]
    for ec, ac in cutoffs:
        s.calculate_vorovector(edge_cutoff=ec, area_cutoff=ac)
        for i in (0, 4, 9, 13, 22):
            a = s.get_atom(i)
            t = 'atom %d (%s, %s): ' % (i, ec, ac)
            side = [c[0] + c[1] for c in g.cells_[i]]
            faces = []
            for b in range(3):
                u, v = [side[d] for d in range(3) if d != b]
                faces += [(u * v, [u, v, u, v])] * 2
            E.same([int(c) for c in a.vorovector], grade(E, faces, ec, ac), t + 'Voronoi vector')
            E.same(len(a.edge_lengths), 6, t + 'number of faces')
            for m, j in enumerate(a.neighbors):
                b = [d for d in range(3) if j in g.cells_[i][d][2]][0]
                u, v = [side[d] for d in range(3) if d != b]
                ed = list(a.edge_lengths[m])
                E.same(len(ed), 4, t + 'edges of a face')
                E.eq(ed[0], ed[2], t + 'opposite edges')
                E.eq(ed[1], ed[3], t + 'opposite edges')
                E.eq(ed[0] + ed[1], u + v, t + 'sum of edges')
                E.eq(ed[0] * ed[1], u * v, t + 'product of edges')
    E.eqs([s.get_atom(i).volume for i in range(27)], vol, 'volumes after the calculation')
    E.done()


def polygon(E, w, h, cuts):
    """rectangle with cut corners (3c, 4c): vertices, edges, area"""
    pts, edges = [], []
    c = list(cuts) + [0] * (4 - len(cuts))
    has = [i < len(cuts) for i in range(4)]
    corner = [(0, 0), (w, 0), (w, h), (0, h)]
    # at corners 0 and 2 the cut takes 3c from x and 4c from y; walking counterclockwise
    for i, (x, y) in enumerate(corner):
        if not has[i]:
            pts.append((x, y))
            continue
        dx = 3 * c[i] if i in (0, 3) else -3 * c[i]
        dy = 4 * c[i] if i in (0, 1) else -4 * c[i]
        first, second = ((x, y + dy), (x + dx, y)) if i in (0, 2) else ((x + dx, y), (x, y + dy))
        pts += [first, second]
    bottom = w - 3 * c[0] - 3 * c[1]
    right = h - 4 * c[1] - 4 * c[2]
    top = w - 3 * c[2] - 3 * c[3]
    left = h - 4 * c[3] - 4 * c[0]
    edges = [bottom, right, top, left] + [5 * x for x in cuts]
    area = w * h - 6 * sum(x * x for x in cuts)
    return pts, edges, area


def shapes(E, order, ec, ac, two):
    e = E.real('e', 0.05, 0.5)
    d = E.real('d', 0.05, 0.5) if two else E.const(0.25)
    k = E.const
    q = k(0.25)
    faces = [([(k(0), k(0)), (k(3), k(0)), (k(0), k(4))], [k(3), k(4), k(5)], k(6)),
             polygon(E, k(5), 8 * e, []),
             polygon(E, k(6), k(7), [e]),
             polygon(E, k(6), k(7), [q, e]),
             polygon(E, k(6), k(7), [q, d, e]),
             polygon(E, k(7), k(6), [d, q, e, q])]
    faces = [faces[i] for i in order]
    n = len(faces)
    s = system(E, ortho_box(30, 30, 30), [[10, 10, 10]] + [[12 + i, 10, 10] for i in range(n)])
    s.find_neighbors(method='cutoff', cutoff=14)
    alone(s, n + 1)
    a = s.get_atom(0)
    tot = sum(f[2] for f in faces)
    a.neighbor_weights = [E.div(f[2], tot) for f in faces]
    a.face_vertices = [len(f[0]) for f in faces]
    nums, vec = [], []
    for z, f in enumerate(faces):
        m = len(f[0])
        # vertices are stored in another order than they follow each other
        base = len(vec) // 3
        nums += [m] + [base + (m - 1 - i) for i in range(m)]
        for x, y in reversed(f[0]):
            vec += [x, y, k(z)]
    a.vertex_numbers = nums
    a.vertex_vectors = vec
    s.set_atom(a)
    s.calculate_vorovector(edge_cutoff=ec, area_cutoff=ac)
    a = s.get_atom(0)
    E.same([int(c) for c in a.vorovector], grade(E, [(f[2], f[1]) for f in faces], ec, ac), 'Voronoi vector')
    E.same(len(a.edge_lengths), n, 'number of faces')
    for i, f in enumerate(faces):
        ed = list(a.edge_lengths[i])
        E.same(len(ed), len(f[1]), 'edges of face %d' % i)
        E.eq(sum(ed), sum(f[1]), 'perimeter of face %d' % i)
        E.eq(sum(x * x for x in ed), sum(x * x for x in f[1]), 'squares of edges of face %d' % i)
    E.done()


HARNESSES = [
    H('cuboids', cuboids, [{'kind': 'ortho', 'cutoffs': [(0.05, 0.01), (0.2, 0.01)]}, {'kind': 'sheared', 'cutoffs': [(0.22, 0.15)]},
                           {'kind': 'rotated', 'cutoffs': [(0.05, 0.13)], 'alpha': 2}],
      [{'kind': kd, 'cutoffs': c, 'alpha': al} for al in (1, 2) for kd in ('ortho', 'rotated', 'sheared') for c in ([(0.2, 0.01), (0.05, 0.15)], [(0.24, 0.18), (0.05, 0.01)])]),
    H('shapes', shapes, [{'order': o, 'ec': ec, 'ac': ac, 'two': t} for o, ec, ac, t in
                         (([0, 1, 2, 3, 4, 5], 0.05, 0.01, False), ([5, 3, 0, 2, 1], 0.03, 0.1, False), ([4, 1, 5], 0.05, 0.05, True), ([2, 0, 4, 3], 0.1, 0.25, False))],
      [{'order': o, 'ec': ec, 'ac': ac, 'two': t} for o in ([0, 1, 2, 3, 4, 5], [5, 3, 0, 2, 1], [4, 1, 5], [2, 0, 4, 3]) for ec in (0.03, 0.05, 0.1)
       for ac in (0.01, 0.1) for t in (False, True)]),
]
