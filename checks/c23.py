"""C23: what a box means, whatever came before it."""
from engine.harness import H
from .common import atoms_of
from .c11 import BOXES as CELLS0

PROPERTY = dict(
    title='Distances and neighbors depend on the present box only, not on earlier ones',
    statement='After a box is assigned, System.box, distances and neighbors are those of that box, in whatever way it is given (lists or arrays), whether tilted or not and whatever the tilts are, '
              'and whatever boxes, atoms, copies, neighbors or clusters the system had before.  A box with tilts of zero behaves as an orthogonal one, and tilts of opposite sign do not cancel.',
    quantifier=dict(over=['inputs', 'histories'], text='all boxes and all sequences of assignments of boxes and atoms and of searches'),
    why_tests_cant='Every test assigns one box to one system.',
    anchors=dict(files=['src/pyscal/core.py', 'src/pyscal/system.cpp'],
                 mechanism=[dict(name='System.box, _set_box', where='core.py'), dict(name='assign_triclinic_params, sbox', where='system.cpp')],
                 observe_at=['System.box', 'System.get_distance', 'Atom.neighbors', 'Atom.neighbor_vector']))

BOUNDS = ('sequences of up to 4 assignments of one orthogonal and three triclinic boxes (one left handed, one with tilts that add up to zero) with symbolic edges or tilts; 3 atoms with symbolic coordinates')
OUTSIDE = 'rounding; tilts between 0 and 1e-4; atoms half way between two images'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'numpy.linalg.inv returns the inverse']

CELLS = dict(CELLS0, cancel=[[4, 0, 0], [1, 4, -1], [0, 0, 4]])


def box_of(E, name, sym=False):
    if name == 'edge':
        return [[E.real('l', 3.5, 4.5), 0, 0], [0, 5, 0], [0, 0, 6]]
    if name == 'tilt':
        t = E.real('t', -1, 1)
        E.apart(t, 0, 1e-4)
        return [[4, 0, 0], [t, 4, 0], [0, -t, 4]]
    if name == 'zero':
        return [[4.0, 0.0, 0.0], [-0.0, 5.0, 0.0], [0.0, 0.0, 6.0]]
    return [list(v) for v in CELLS[name]]


def positions(E, few=False):
    if few:
        x, y = E.real('x', 0.4, 0.5), E.const(1.25)
    else:
        x, y = E.real('x', 0.25, 0.75), E.real('y', 1, 1.5)
    return [[x, 0.5, 0.25], [x + 1.5, y, 0.5], [0.5, 1.75, 3.5]]


def images(E, b, p, q):
    """squared distances of nearest images"""
    best = None
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            for k in (-1, 0, 1):
                d = [q[x] - p[x] + i * b[0][x] + j * b[1][x] + k * b[2][x] for x in range(3)]
                yield (i, j, k), d


def verify(E, s, b, pos, tag):
    E.eqs(s.box, b, tag + 'box')
    real = s.atoms
    fresh = E.mod('core').System()
    fresh.box = [list(v) for v in b]
    fresh.set_atoms(atoms_of(E, pos))
    f = fresh.atoms
    for i in range(len(pos)):
        for j in range(len(pos)):
            if i == j:
                continue
            d, v = s.get_distance(real[i], real[j], vector=True)
            # of the box itself: the displacement is an image within half a box in fractional coordinates
            fd, fv = fresh.get_distance(f[i], f[j], vector=True)
            if s.ntotal > s.natoms:
                continue        # distances of small systems are those of the larger box
            E.eq(d, fd, '%sdistance %d %d' % (tag, i, j))
            E.eqs(v, fv, '%svector %d %d' % (tag, i, j))
            w = list(v)
            cands = [dd for _, dd in images(E, b, pos[j], pos[i])]
            g = min(cands, key=lambda c: sum(abs(E.number(c[x] - w[x])) for x in range(3)))
            E.eqs(w, g, '%svector %d %d is that of an image' % (tag, i, j))
            E.eq(d * d, E.dot(g, g), '%slength %d %d' % (tag, i, j))


def neighbors(E, s, b, pos, cutoff, tag):
    s.find_neighbors(method='cutoff', cutoff=cutoff)
    want = []
    for i, a in enumerate(s.atoms):
        near = []
        for j in range(len(pos)):
            for f, d in images(E, b, pos[i], pos[j]):
                if i == j and f == (0, 0, 0):
                    continue
                q = E.dot(d, d)
                E.apart(q, cutoff * cutoff, 1e-3)
                if bool(q < cutoff * cutoff):
                    near.append((j, q))
        E.same(len(a.neighbors), len(near), '%snumber of neighbors of atom %d' % (tag, i))
        E.same(sorted(n % len(pos) for n in a.neighbors), sorted(j for j, q in near), '%sneighbors of atom %d' % (tag, i))
        E.eq(sum(d * d for d in a.neighbor_distance), sum((q for j, q in near), 0), '%sdistances of the neighbors of atom %d' % (tag, i))


def history(E, boxes, small=False, cutoff=None, array=False, cluster=False):
    import numpy as np
    s = E.mod('core').System()
    pos = positions(E, small)
    for k, name in enumerate(boxes.split()):
        b = box_of(E, name)
        s.box = np.array(b) if array and k % 2 == 0 else [list(v) for v in b]
        if small:
            s.atoms = atoms_of(E, pos)
        elif k == 0 or not array:
            s.set_atoms(atoms_of(E, pos))
        verify(E, s, b, pos, '%d %s: ' % (k, name))
        if cutoff:
            neighbors(E, s, b, pos, cutoff, '%d %s: ' % (k, name))
        if cluster:
            s.cluster_atoms(lambda a: a.type == 1, largest=True, cutoff=1)
    E.done()


def kept(E, first, second):
    """atoms stay where they are under a new box, with and without copies"""
    s = E.mod('core').System()
    pos = positions(E, True)
    s.box = box_of(E, first)
    s.atoms = atoms_of(E, pos)
    s.box = box_of(E, second)
    b = box_of(E, second)
    E.eqs(s.box, b, 'box')
    E.eqs(s._box, b, 'inner box')
    s.atoms = s.atoms
    for i, a in enumerate(s.atoms):
        E.eqs(a.pos, pos[i], 'position of atom %d' % i)
    neighbors(E, s, b, pos, 2, '')
    E.done()


def extreme(E, kind):
    """any box is a box, whatever the sum of its components"""
    x = E.real('x', 3, 5)
    b = {'left': [[-x, 0, 0], [0, 2, 0], [0, 0, 2]], 'tilted': [[2, 0, 0], [1 - x, 2, 0], [-x / 2, 0, 2]], 'zero': [[0, 0, 0]] * 3}[kind]
    s = E.mod('core').System()
    pos = [[E.real('p', 0.5, 1), 0.5, 0.25]]
    try:
        if kind != 'zero':
            s.box = b
        s.atoms = atoms_of(E, pos)
    except ValueError:
        E.check(kind == 'zero', 'atoms are refused')
        E.done()
        return
    E.check(kind != 'zero', 'atoms without a box')
    E.eqs(s.box, b, 'box')
    E.same(s.natoms, 1, 'number of atoms')
    E.eqs(s.atoms[0].pos, pos[0], 'position')
    E.done()


HARNESSES = [
    H('extreme', extreme, [{'kind': k} for k in ('left', 'tilted', 'zero')], [{'kind': k} for k in ('left', 'tilted', 'zero')]),
    H('history', history, [{'boxes': 'tri ortho left'}, {'boxes': 'ortho cancel'}, {'boxes': 'left edge', 'array': True}, {'boxes': 'tilt zero tri'},
                           {'boxes': 'tri ortho', 'small': True, 'cutoff': 2}, {'boxes': 'edge left', 'cluster': True}],
      [{'boxes': '%s %s %s' % (p, q, r), 'array': z} for p in ('ortho', 'tri', 'left') for q in ('ortho', 'cancel', 'tilt') for r in ('edge', 'zero', 'tri') for z in (False, True)]
      + [{'boxes': '%s %s' % (p, q), 'small': True, 'cutoff': c} for p in CELLS for q in CELLS if p != q for c in (2, 1.75)]),
    H('kept', kept, [{'first': 'tri', 'second': 'ortho'}, {'first': 'ortho', 'second': 'cancel'}], [{'first': p, 'second': q} for p in CELLS for q in CELLS]),
]
