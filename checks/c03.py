"""C03: cell lists."""
from engine.harness import H
from .common import system, ortho_box
from .c01 import CELLS
from .c02 import verify, image

PROPERTY = dict(
    title='Cell-list searches for large systems find the same neighbors as the definition',
    statement='The accelerated neighbor search for large systems returns for every box (orthogonal or triclinic, also thinner than three cutoffs) '
              'and for all positions in or near it exactly the atoms whose minimum-image distance is below the cutoff, each once and in both '
              'directions, with the same distances and vectors as the plain pairwise search. The same holds for the candidates it gives to the '
              'adaptive, number and SANN searches.',
    quantifier=dict(over=['inputs', 'configurations'], text='all positions, boxes and cutoffs, all ratios of box edge to cutoff'),
    why_tests_cant='Cell lists are used above 2300 atoms only; the tests compare coordination numbers of two large cubic bcc crystals, with about ten '
                   'cells per direction.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='set_up_cells, cell_periodic, cell_index, get_all_neighbors_cells, get_temp_neighbors_cells', where='system.cpp')],
                 observe_at=['Atom.neighbors', 'Atom.neighbor_distance', 'Atom.neighbor_vector']))

BOUNDS = ('2 to 4 atoms, one or two with a symbolic coordinate in each of the three directions; orthogonal box (10,11,12) or slabs of 1 to 5 cutoffs, '
          'triclinic cells (5); cutoff symbolic (1 to 12 cells per direction, also beyond the box edge); positions up to 0.4 box edges outside the box; '
          'type filters; the 2300 atom switch in find_neighbors is taken by an atom list that reports more atoms than it holds')
OUTSIDE = 'rounding; pairs within 1e-6 of the cutoff; positions within 1e-6 of a cell boundary may be assigned to either cell'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'separations are below 1.5 box vectors in each direction']


def cells_search(s, cut):
    s.reset_neighbors()
    s.set_neighbordistance(cut)
    s.get_all_neighbors_cells()


def along(E, axis, lo, hi, out):
    """two atoms on a line through the box, cutoff symbolic"""
    box = ortho_box(10, 11, 12)
    L = box[axis][axis]
    p, q = [5, 5, 5], [5.5, 5.25, 4.5]
    p[axis] = E.real('p', -0.4 * L if out else 0, L - 0.01)
    q[axis] = E.real('q', 0, L - 0.01 if not out else 0.9 * L)
    cut = E.real('cut', lo, hi)
    v = image(E, box, p, q)
    E.apart(E.dot(v, v), cut * cut, 1e-4)
    s = system(E, box, [p, q])
    cells_search(s, cut)
    verify(E, s, box, [p, q], cut, angles=False)
    E.done()


def slab(E, axis, ratio):
    """box that is `ratio` cutoffs thick along one direction; atoms in a row"""
    cut = 2.5
    box = ortho_box(7.5, 8, 9)
    L = E.real('L', cut * ratio, cut * (ratio + 1) - 0.01)
    box[axis][axis] = L
    f = [0.05, 0.45, 0.7, E.real('f', 0, 0.999)]
    pos = []
    for i in range(4):
        p = [1 + 0.1 * i, 1, 7]
        p[(axis + 1) % 3] = 0.5 if i % 2 else 7
        p[axis] = f[i] * L
        pos.append(p)
    for i in range(4):
        for j in range(i):
            v = image(E, box, pos[i], pos[j])
            E.apart(E.dot(v, v), cut * cut, 1e-4)
    s = system(E, box, pos)
    cells_search(s, cut)
    verify(E, s, box, pos, cut, angles=False)
    E.done()


def tri(E, cell, axis, cut):
    """triclinic box, two atoms on a line along one box vector"""
    box = [[3 * x for x in r] for r in CELLS[cell]]
    f, g = [0.1, 0.3, 0.9], [0.05, 0.25, 0.95]
    f[axis] = E.real('f', 0, 0.999)
    g[axis] = E.real('g', 0, 0.999)
    fr = [f, g, [0.97, 0.03, 0.5]]
    pos = [[sum(x[i] * box[i][k] for i in range(3)) for k in range(3)] for x in fr]

    def dist(i, j):
        d = []
        for k in range(3):
            x = fr[j][k] - fr[i][k]
            if x > 0.5:
                x = x - 1
            elif x < -0.5:
                x = x + 1
            d.append(x)
        return [sum(d[i] * box[i][k] for i in range(3)) for k in range(3)]
    for i in range(3):
        for j in range(i + 1, 3):
            E.apart(fr[j][axis] - fr[i][axis], 0.5, 1e-3)
            E.apart(fr[j][axis] - fr[i][axis], -0.5, 1e-3)
            v = dist(i, j)
            E.apart(E.dot(v, v), cut * cut, 1e-3)
    s = system(E, box, pos)
    cells_search(s, cut)
    verify(E, s, box, pos, cut, angles=False, dist=dist)
    E.done()


def diagonal(E):
    """two atoms anywhere near the corner of the box"""
    box = ortho_box(8, 9, 10)
    x = [E.real('x%d' % i, 0, 1.2) for i in range(2)]
    pos = [[x[0], x[1], 0.25], [8 - x[1], 9 - x[0], 9.5], [2.5, 2.75, 2.5]]
    cut = 2.4
    for i in range(3):
        for j in range(i):
            v = image(E, box, pos[i], pos[j])
            E.assume(E.dot(v, v) > 0.01)
            E.apart(E.dot(v, v), cut * cut, 1e-4)
    s = system(E, box, pos)
    cells_search(s, cut)
    verify(E, s, box, pos, cut, angles=False)
    E.done()


def filtered(E, filt):
    box = ortho_box(8, 9, 10)
    pos = [[1, 1, 1], [7.5, 1, 1], [1, 3, 1.5], [2, 2, 9.5]]
    t = [E.int('t%d' % i, 1, 2) for i in range(4)]
    s = system(E, box, pos, types=t)
    s.filter = filt
    cells_search(s, 2.8)
    verify(E, s, box, pos, 2.8, keep=lambda i, j: bool(t[i] == t[j]) == (filt == 1) if filt else True, angles=False)
    E.done()


class Crowd(list):
    def __len__(self):
        return 5000


def crowd_system(E, box, pos):
    """a system whose `atoms` list reports 5000 atoms, so that find_neighbors takes the path for large systems"""
    core = E.mod('core')

    class Big(core.System):
        atoms = property(lambda self: Crowd(self.get_atoms()))
        ntotal = property(lambda self: 5000)
    from .common import atoms_of
    s = Big()
    s.box = box
    s.set_atoms(atoms_of(E, pos))
    return s


def switch(E, method):
    """the public interface on the large-system path"""
    box = ortho_box(8, 9, 10)
    x = E.real('x', 0, 7.9 if method != 'adaptive' else 1.5)
    pos = [[x, 1, 1], [7.5, 1, 9], [1, 2, 2], [4, 8, 0.5]]
    s = crowd_system(E, box, pos)
    if method == 'cutoff':
        cut = 2.4
        for i in range(4):
            for j in range(i):
                v = image(E, box, pos[i], pos[j])
                E.apart(E.dot(v, v), cut * cut, 1e-4)
        s.find_neighbors(method='cutoff', cutoff=cut)
        verify(E, s, box, pos, cut, angles=False)
    else:
        ref = system(E, box, pos)
        kw = dict(method='number', nmax=2, threshold=1.3) if method == 'number' else dict(method='cutoff', cutoff=method, nlimit=2, threshold=1.3)
        try:
            s.find_neighbors(**kw)
            done = True
        except RuntimeError:
            done = False
        try:
            ref.find_neighbors(**kw)
            refdone = True
        except RuntimeError:
            refdone = False
        E.same(done, refdone, 'search succeeds')
        if done:
            for i in range(4):
                a, b = s.get_atom(i), ref.get_atom(i)
                E.same(sorted(a.neighbors), sorted(b.neighbors), 'neighbors of atom %d' % i)
                E.eq(a.cutoff, b.cutoff, 'cutoff of atom %d' % i) if method != 'number' else None
    E.done()


HARNESSES = [
    H('along', along, [{'axis': i, 'lo': a, 'hi': b, 'out': 0} for i in range(3) for a, b in ((3.2, 3.9), (5.1, 14))] +
      [{'axis': i, 'lo': 3, 'hi': 3.2, 'out': 1} for i in range(3)],
      [{'axis': i, 'lo': a, 'hi': b, 'out': o} for i in range(3) for a, b in ((0.95, 2.6), (2.5, 4.2), (5.1, 14)) for o in (0, 1)]),
    H('slab', slab, [{'axis': i, 'ratio': r} for i in range(3) for r in (0.5, 1, 2, 3)],
      [{'axis': i, 'ratio': r} for i in range(3) for r in (0.5, 1, 1.5, 2, 3, 4)]),
    H('triclinic', tri, [{'cell': c, 'axis': i, 'cut': 3.5} for i, c in enumerate(('full', 'hex', 'lower'))],
      [{'cell': c, 'axis': i, 'cut': k} for c in CELLS for i in range(3) for k in (3.5, 5.5)]),
    H('corner', diagonal, [{}]),
    H('filtered', filtered, [{'filt': f} for f in (0, 1, 2)]),
    H('switch', switch, [{'method': m} for m in ('cutoff', 'number', 'adaptive')]),
]
