"""C18: Voronoi neighbors, volumes and weights."""
from fractions import Fraction
from engine.harness import H
from .common import system

PROPERTY = dict(
    title='Voronoi neighbors, weights, volumes and faces are those of the Voronoi cells',
    statement='After a Voronoi search the neighbors of an atom are the atoms that share a face of its cell (those the type filter admits), each with its '
              'minimum image distance, face area to the given power over the sum of these for all faces as weight, number of face vertices, face perimeter and '
              'the vertices of the face, which lie halfway to the neighbor.  Volumes are those of the cells, so they add up to the box, averaged volumes are means '
              'over the atom and its neighbors, vertex positions are the vertex vectors from the position of the atom; all this in any periodic box, for atoms '
              'outside the box and in repeated searches.',
    quantifier=dict(over=['inputs', 'configurations'], text='all positions, types, exponents, boxes'),
    why_tests_cant='The tests look at the volume and the weights of perfect bcc crystals, where all cells are equal, in orthogonal boxes.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py', 'src/pyscal/atom.cpp'],
                 mechanism=[dict(name='get_all_neighbors_voronoi, find_average_volume', where='system.cpp'), dict(name='find_neighbors', where='core.py')],
                 observe_at=['System.find_neighbors', 'Atom.volume', 'Atom.neighbor_weights', 'Atom.vertex_vectors', 'Atom.vertex_numbers']))

BOUNDS = ('27 to 36 atoms on a grid of planes, one or two of the planes at a symbolic distance (the cells are then cuboids, known exactly); orthogonal, rotated '
          'and sheared boxes, one of the atoms outside the box, type filters, exponents 1 to 3, two searches in a row')
OUTSIDE = ('the construction of the cells by voro++, a third-party library: for grids it is replaced by the exact cells, after the check that box and positions '
           'it is given are right; the concrete replay uses the real library; cells of other shapes; distances in the sheared '
           'boxes (C01)')
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'voro++ returns the Voronoi cells of the positions and the box it is given']

EYE = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
TURN = [[Fraction(c, 3) for c in v] for v in ([2, 1, 2], [-2, 2, 1], [-1, -2, 2])]


class Grid:
    """atoms where planes cross; also the stand-in of voro++ in the symbolic run"""

    def __init__(self, E, axes, lengths, kind, outside=None):
        self.E, self.kind = E, kind
        self.ax = [[E.const(c) if isinstance(c, (int, float)) else c for c in a] for a in axes]
        self.L = [E.const(c) if isinstance(c, (int, float)) else c for c in lengths]
        self.R = [[E.frac(c.numerator, c.denominator) if isinstance(c, Fraction) else E.const(c) for c in v] for v in (TURN if kind == 'rotated' else EYE)]
        n = [len(a) for a in self.ax]
        self.idx = [(i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
        self.num = {t: i for i, t in enumerate(self.idx)}
        self.coord = [[self.ax[a][t[a]] for a in range(3)] for t in self.idx]
        if outside is not None:
            i, a = outside
            self.coord[i] = [c + (self.L[b] if b == a else 0) for b, c in enumerate(self.coord[i])]
        R, L = self.R, self.L
        self.box = [[L[a] * R[a][k] for k in range(3)] for a in range(3)]
        if kind == 'sheared':
            self.box[1] = [self.box[1][k] + self.box[0][k] for k in range(3)]
        elif kind == 'sheared2':
            self.box[2] = [self.box[2][k] - self.box[0][k] + self.box[1][k] for k in range(3)]
        self.pos = [[sum(c[a] * R[a][k] for a in range(3)) for k in range(3)] for c in self.coord]
        self.cells_ = [self.cell(t) for t in self.idx]

    def cell(self, t):
        """half distances to the planes before and after, and the neighbors there"""
        out = []
        for a in range(3):
            ax, i = self.ax[a], t[a]
            n = len(ax)
            lo = ax[i] - ax[i - 1] if i else ax[0] + self.L[a] - ax[n - 1]
            hi = ax[i + 1] - ax[i] if i < n - 1 else ax[0] + self.L[a] - ax[i]
            nb = [self.num[t[:a] + ((i + s) % n,) + t[a + 1:]] for s in (-1, 1)]
            out.append((self.E.div(lo, 2), self.E.div(hi, 2), nb))
        return out


class Stub:
    """cells of a grid in place of voro++"""
    FACES = [(a, s) for a in range(3) for s in (1, 0)]

    def __init__(self, g):
        self.g = g
        self.E = g.E
        self.ids = []
        n = len(g.idx)
        self.perm = [(7 * i + 3) % n for i in range(n)] if n % 7 else [n - 1 - i for i in range(n)]

    def start(self):
        self.xyz = {}

    def box(self, ax, bx, ay, by, az, bz, px, py, pz):
        E, g = self.E, self.g
        self.start()
        E.same([bool(px), bool(py), bool(pz)], [True] * 3, 'the container is periodic')
        self.E.eqs([bx - ax, by - ay, bz - az], g.L, 'lengths of the container')
        self.lattice = [[g.L[0], 0, 0], [0, g.L[1], 0], [0, 0, g.L[2]]]

    def periodic(self, bx, bxy, by, bxz, byz, bz):
        E, g = self.E, self.g
        self.start()
        k = g.kind
        self.E.eqs([bx, bxy, by, bxz, byz, bz],
                   [g.L[0], g.L[0] if k == 'sheared' else 0, g.L[1], -g.L[0] if k == 'sheared2' else 0, g.L[1] if k == 'sheared2' else 0, g.L[2]],
                   'cell of the container')
        self.lattice = [[bx, 0, 0], [bxy, by, 0], [bxz, byz, bz]]

    def put(self, i, x, y, z):
        i = int(i)
        self.E.check(i not in self.xyz, 'an atom is put into the container once')
        self.xyz[i] = [x, y, z]

    def cells(self):
        E, g = self.E, self.g
        E.same(sorted(self.xyz), list(range(len(g.idx))), 'atoms in the container')
        for i, p in self.xyz.items():
            d = [p[a] - g.coord[i][a] for a in range(3)]
            for a in (2, 1, 0):         # the vectors of the cell have no components after their own
                f = E.div(d[a], self.lattice[a][a])
                m = E.floor(f + E.frac(1, 2))
                E.eq(f, m, 'position %d of atom %d in the container' % (a, i))
                d = [d[b] - m * self.lattice[a][b] for b in range(3)]
        return len(g.idx)

    def pid(self, k):
        return self.perm[k]

    def compute(self, k):
        return 1

    def c(self, k):
        return self.g.cells_[self.perm[k]]

    def nfaces(self, k):
        return 6

    def sides(self, k, f):
        a = self.FACES[f][0]
        c = self.c(k)
        return [c[b][0] + c[b][1] for b in range(3) if b != a]

    def area(self, k, f):
        u, v = self.sides(k, f)
        return u * v

    def neigh(self, k, f):
        a, s = self.FACES[f]
        return self.c(k)[a][2][s]

    def order(self, k, f):
        return 4

    def perim(self, k, f):
        u, v = self.sides(k, f)
        return 2 * (u + v)

    def nfv(self, k):
        return 30

    def fv(self, k, i):
        f, r = divmod(i, 5)
        if r == 0:
            return 4
        a, s = self.FACES[f]
        u, v = [b for b in range(3) if b != a]
        x, y = ((0, 0), (1, 0), (1, 1), (0, 1))[r - 1]
        return (s << a) | (x << u) | (y << v)

    def nverts(self, k):
        return 8

    def vert(self, k, i):
        v, a = divmod(i, 3)
        c = self.c(k)[a]
        return c[1] if v >> a & 1 else -c[0]

    def volume(self, k):
        c = self.c(k)
        return (c[0][0] + c[0][1]) * (c[1][0] + c[1][1]) * (c[2][0] + c[2][1])


def use(E, g):
    if not E.concrete:
        E.w.voro = Stub(g)


def verify(E, s, g, types, alpha=1, filt=None, detailed=(0, 5), tag=''):
    al = s.get_all_atoms()
    n = len(g.idx)
    E.same(len(al), n, tag + 'number of atoms')
    side = [[c[a][0] + c[a][1] for a in range(3)] for c in g.cells_]
    vol = [u[0] * u[1] * u[2] for u in side]
    E.eq(sum(a.volume for a in al), g.L[0] * g.L[1] * g.L[2], tag + 'sum of the volumes', 1e-6)
    for i in range(n):
        a = al[i]
        t = tag + 'atom %d: ' % i
        E.eq(a.volume, vol[i], t + 'volume')
        faces = {}
        tot = 0
        for b in range(3):
            u, v = [side[i][d] for d in range(3) if d != b]
            tot = tot + (u * v) ** alpha
            for z in (0, 1):
                faces[g.cells_[i][b][2][z]] = (b, z, u, v)
            tot = tot + (u * v) ** alpha
        kept = [j for j in faces if filt is None or (types[i] == types[j]) == (filt == 'type')]
        nb = list(a.neighbors)
        E.same(sorted(nb), sorted(kept), t + 'neighbors')
        E.eq(a.avg_volume * (len(kept) + 1), vol[i] + sum(vol[j] for j in kept), t + 'averaged volume')
        for name in ('neighbor_weights', 'neighbor_distance', 'face_vertices', 'face_perimeters'):
            E.same(len(getattr(a, name)), len(kept), t + 'length of ' + name)
        w, d, fv, fp, vn = a.neighbor_weights, a.neighbor_distance, a.face_vertices, a.face_perimeters, list(a.vertex_numbers)
        E.same(len(vn), 5 * len(kept), t + 'length of the vertex numbers')
        vec = a.vertex_vectors
        E.same(len(vec), 24, t + 'number of coordinates of vertices')
        if i in detailed:
            E.same(len(a.vertex_positions), 8, t + 'number of vertices')
            for k in range(8):
                E.eqs(list(a.vertex_positions[k]), [g.pos[i][c] + vec[3 * k + c] for c in range(3)], t + 'position of vertex %d' % k)
        for m, j in enumerate(nb):
            b, z, u, v = faces[j]
            E.eq(w[m] * tot, (u * v) ** alpha, t + 'weight of neighbor %d' % j)
            if not g.kind.startswith('sheared'):
                E.eq(d[m], 2 * g.cells_[i][b][z], t + 'distance of neighbor %d' % j)
            E.same(fv[m], 4, t + 'vertices of the face to neighbor %d' % j)
            E.eq(fp[m], 2 * (u + v), t + 'perimeter of the face to neighbor %d' % j)
            if i not in detailed:
                continue
            E.same(vn[5 * m], 4, t + 'vertices in the list of neighbor %d' % j)
            seen = []
            for k in vn[5 * m + 1:5 * m + 5]:
                c = []
                for ax in range(3):
                    x = E.dot(vec[3 * k:3 * k + 3], g.R[ax])
                    up = E.number(x) > 0
                    E.eq(x, g.cells_[i][ax][1] if up else -g.cells_[i][ax][0], t + 'vertex %d' % k)
                    c.append(up)
                E.same(c[b], bool(z), t + 'vertex %d is halfway to neighbor %d' % (k, j))
                seen.append(tuple(c))
            E.same(len(set(seen)), 4, t + 'different vertices')
            around = all(sum(p != q for p, q in zip(seen[k - 1], seen[k])) == 1 for k in range(4))
            E.check(around, t + 'vertices follow each other around the face')


def grid(E, kind, two, outside):
    x = E.real('x', 2.75, 5.75)
    y = E.real('y', 3, 7) if two else 5.5
    return Grid(E, [[1, x, 7.5], [2, y, 8], [0.5, 3, 7]], [10, 11, 12], kind, (4, outside) if outside is not None else None)


def cells(E, kind, two, alpha, filt, outside):
    g = grid(E, kind, two, outside)
    types = [1 + (i % 5 in (1, 2)) for i in range(27)]
    s = system(E, g.box, g.pos, types)
    use(E, g)
    kw = {'voroexp': alpha} if alpha != 1 else {}
    if filt:
        kw['filter'] = filt
    s.find_neighbors(method='voronoi', **kw)
    verify(E, s, g, types, alpha, filt)
    E.done()


def again(E, kind, order):
    """searches one after the other, with other parameters"""
    g = grid(E, kind, False, None)
    types = [1 + (i % 3 == 1) for i in range(27)]
    s = system(E, g.box, g.pos, types)
    for o in order:
        use(E, g)
        if o == 'cutoff':
            s.find_neighbors(method='cutoff', cutoff=3)
            continue
        kw = {'type': dict(filter='type'), 'other': dict(filter='type_r'), 'square': dict(voroexp=2), 'plain': {}}[o]
        s.find_neighbors(method='voronoi', **kw)
        verify(E, s, g, types, 2 if o == 'square' else 1, {'type': 'type', 'other': 'type_r'}.get(o), tag=o + ': ')
    E.done()


def long(E, axis):
    """more planes along an axis"""
    x = E.real('x', 2, 4)
    ax = [[1, 4, 7], [2, 5, 9], [0.5, 3, 8]]
    ax[axis] = [0.25, x, 5, 8.5]
    g = Grid(E, ax, [10, 11, 12], 'ortho', None)
    s = system(E, g.box, g.pos)
    use(E, g)
    s.find_neighbors(method='voronoi')
    verify(E, s, g, [1] * len(g.idx), detailed=range(0, len(g.idx), 5))
    E.done()


HARNESSES = [
    H('cells', cells, [{'kind': k, 'two': t, 'alpha': a, 'filt': f, 'outside': o} for k, t, a, f, o in
                       (('ortho', True, 1, None, None), ('ortho', False, 2, 'type', 0), ('rotated', False, 1, None, 2), ('sheared', True, 1, 'type_r', 1),
                        ('sheared2', False, 3, None, None))],
      [{'kind': k, 'two': t, 'alpha': a, 'filt': f, 'outside': o} for k in ('ortho', 'rotated', 'sheared', 'sheared2') for t in (False, True) for a, f, o in
       ((1, None, 0), (2, 'type', 1), (1, 'type_r', 2), (3, None, None))]),
    H('again', again, [{'kind': 'ortho', 'order': ['type', 'plain']}, {'kind': 'sheared', 'order': ['square', 'cutoff', 'other']}],
      [{'kind': k, 'order': o} for k in ('ortho', 'rotated') for o in (['type', 'plain', 'other'], ['square', 'cutoff', 'plain'])]),
    H('long', long, [{'axis': 1}], [{'axis': a} for a in range(3)]),
]
