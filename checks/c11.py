"""C11: repeated boxes."""
import itertools
from engine.harness import H
from .common import atoms_of, ortho_box
from .c04 import table, order

PROPERTY = dict(
    title='A repeated box describes the same crystal',
    statement='repeat(reps) returns the atoms followed by one copy of each, of the same type and with an id of its own, at every combination of -reps to reps box vectors, scales the box to match '
              'unless asked not to, and leaves the atoms of the system and boxes handed out earlier alone, whether or not the system holds periodic copies.  '
              'Neighbors found in the repeated system are those of the original one.  With at least two repetitions extract_cubic_box returns an orthogonal cell of the same crystal with all its atoms, and the system keeps its box.',
    quantifier=dict(over=['inputs'], text='all positions, types, box shapes and numbers of repetitions'),
    why_tests_cant='The tests count atoms of one repeated cubic box and of two extracted boxes; positions, types and the box are not looked at.',
    anchors=dict(files=['src/pyscal/core.py'],
                 mechanism=[dict(name='System.repeat, extract_cubic_box', where='core.py')],
                 observe_at=['System.repeat', 'System.extract_cubic_box', 'System.box', 'Atom.neighbors']))

BOUNDS = ('1 to 3 atoms with symbolic coordinates, types and, for extraction, lattice constant; up to 3 repetitions per direction; one orthogonal and two triclinic boxes; primitive cells of sc, bcc, fcc, CsCl and NaCl type crystals')
OUTSIDE = 'rounding (atoms on the faces of an extracted cell); crystals without an orthogonal cell'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']

BOXES = {'ortho': [[4, 0, 0], [0, 5, 0], [0, 0, 6]], 'tri': [[4, 0, 0], [1, 5, 0], [0.5, -1, 4]], 'left': [[0, 4, 0], [5, 1, 0], [0, 0, 4]]}


def setup(E, box, n, small):
    b = BOXES[box]
    s = E.mod('core').System()
    s.box = [list(v) for v in b]
    pos = [[E.real('x', -2, 2), 1, 2], [2, E.real('y', 0, 4), 0.5], [3, 2, E.real('z', 0, 4)]][:n]
    types = [E.int('t0', 1, 5), E.int('t1', 1, 5), 2][:n]
    atoms = atoms_of(E, pos, types, list(range(1, n + 1)))
    if small:
        s.atoms = atoms
    else:
        s.set_atoms(atoms)
    return s, b, pos, types


def repeat(E, box, n, reps, small=False, scale=True, given=False, ghost=False):
    s, b, pos, types = setup(E, box, n, small)
    held = s.box
    tot = s.ntotal
    kw = {}
    if given:
        # a list of atoms of its own
        pos = [[1 + 2 * E.real('w', 0, 1), 1, 1]] + pos
        types = [3] + types
        kw = {'atoms': atoms_of(E, pos, types, list(range(1, n + 2)))}
        n = n + 1
    got = s.repeat(tuple(reps), ghost=ghost, scale_box=scale, **kw)
    E.eqs(held, b, 'box handed out earlier')
    E.same(s.ntotal, tot, 'atoms of the system')
    ks = [2 * r + 1 for r in reps]
    m = ks[0] * ks[1] * ks[2]
    E.same(len(got), n * m, 'number of atoms')
    big = [[ks[i] * x for x in b[i]] for i in range(3)]
    if ghost:
        E.eqs(s.box, b, 'box seen from outside')
        E.eqs(s._box, big, 'inner box')
    elif scale:
        E.eqs(s.box, big, 'box')
        E.eqs(s._box, big, 'inner box')
    else:
        E.eqs(s.box, b, 'box')
    for i in range(n):
        E.eqs(got[i].pos, pos[i], 'position of atom %d' % i)
        E.same(got[i].ghost, 0, 'atom %d is not a copy' % i)
    ids = set()
    # shifts of the copies, by those of the first atom
    left = set(itertools.product(*[range(-r, r + 1) for r in reps])) - {(0, 0, 0)}
    for c in range(1, m):
        d = [E.number(got[c * n].pos[x] - pos[0][x]) for x in range(3)]
        f = min(left, key=lambda f: sum(abs(sum(f[i] * b[i][x] for i in range(3)) - d[x]) for x in range(3)))
        left.discard(f)
        for i in range(n):
            a = got[c * n + i]
            E.eqs(a.pos, [pos[i][x] + sum(f[k] * b[k][x] for k in range(3)) for x in range(3)], 'copy %d of atom %d' % (c, i))
            E.same(a.type, types[i], 'type of copy %d of atom %d' % (c, i))
            E.same(a.ghost, 1 if ghost else 0, 'flag of copy %d of atom %d' % (c, i))
            ids.add(a.id)
    E.same(len(ids), n * (m - 1), 'ids of the copies differ')
    E.check(not ids & set(range(1, n + 1)), 'and from those of the atoms')
    E.done()


def neighbors(E, box, reps, cutoff):
    """neighbors in the repeated system"""
    b = BOXES[box]
    s = E.mod('core').System()
    s.box = [list(v) for v in b]
    x = E.real('x', 1.5, 2.5)
    pos = [[0.25, 0.5, 1], [x, 2.5, 2.5]]
    s.set_atoms(atoms_of(E, pos, [1, 2], [1, 2]))
    got = s.repeat(tuple(reps))
    s.set_atoms(got)
    s.find_neighbors(method='cutoff', cutoff=cutoff)
    # all separations of the infinite crystal
    for i in (0, 1):
        dist = []
        for j in (0, 1):
            for f in itertools.product(range(-4, 5), repeat=3):
                if i == j and f == (0, 0, 0):
                    continue
                d = [pos[j][k] - pos[i][k] + sum(f[v] * b[v][k] for v in range(3)) for k in range(3)]
                q = E.dot(d, d)
                if E.number(q) < 4 * cutoff ** 2:
                    dist.append((q, 1 + j))
        near = []
        for q, t in dist:
            E.apart(q, cutoff ** 2, 1e-3)
            if bool(q < cutoff ** 2):
                near.append((q, t))
        a = s.atoms[i]
        E.same(len(a.neighbors), len(near), 'number of neighbors of atom %d' % i)
        E.same(sum(got[j].type == 2 for j in a.neighbors), sum(t == 2 for q, t in near), 'types of the neighbors of atom %d' % i)
        E.eq(sum(d * d for d in a.neighbor_distance), sum(q for q, t in near), 'distances of the neighbors of atom %d' % i)
    E.done()


CRYSTALS = {
    'fcc': ([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [([0, 0, 0], 1)], [1, 1, 1], [([0, 0, 0], 1), ([.5, .5, 0], 1), ([.5, 0, .5], 1), ([0, .5, .5], 1)]),
    'bcc': ([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]], [([0, 0, 0], 1)], [1, 1, 1], [([0, 0, 0], 1), ([.5, .5, .5], 1)]),
    'cscl': ([[1, 0, 0], [1, 1, 0], [0, 0, 1]], [([0, 0, 0], 1), ([.5, .5, .5], 2)], [1, 1, 1], [([0, 0, 0], 1), ([.5, .5, .5], 2)]),
    'nacl': ([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [([0, 0, 0], 2), ([.5, .5, .5], 1)], [1, 1, 1],
             [([0, 0, 0], 2), ([.5, .5, 0], 2), ([.5, 0, .5], 2), ([0, .5, .5], 2), ([.5, 0, 0], 1), ([0, .5, 0], 1), ([0, 0, .5], 1), ([.5, .5, .5], 1)]),
    'tetra': ([[1, 0, 0], [1, 1, 0], [0, 0, 1.5]], [([0, 0, 0], 1), ([.5, .5, .25], 1)], [1, 1, 1.5], [([0, 0, 0], 1), ([.5, .5, .25], 1)]),
}


def cubic(E, crystal, reps, small=False, shifted=False):
    vec, basis, cell, full = CRYSTALS[crystal]
    a = E.real('a', 3, 5)
    o = [E.real('o', 0, 1) if shifted else E.const(0), E.const(0), E.const(0)]
    b = [[a * E.const(x) for x in v] for v in vec]
    s = E.mod('core').System()
    s.box = [list(v) for v in b]
    atoms = atoms_of(E, [[o[k] + a * E.const(p[k]) for k in range(3)] for p, t in basis], [t for p, t in basis], list(range(1, len(basis) + 1)))
    if small:
        s.atoms = atoms
    else:
        s.set_atoms(atoms)
    inner, tot = s._box, s.ntotal
    box, got = s.extract_cubic_box(repeat=tuple(reps))
    E.eqs(s.box, b, 'box of the system')
    E.eqs(s._box, inner, 'inner box of the system')
    E.same(s.ntotal, tot, 'atoms of the system')
    E.eqs(box, [[cell[i] * a if i == j else 0 for j in range(3)] for i in range(3)], 'cell')
    E.same(len(got), len(full), 'number of atoms')
    # positions, in any order, relative to that of the first kind
    left = list(full)
    for at in got:
        f = [E.number(E.div(at.pos[k], a)) for k in range(3)]
        best = min(left, key=lambda q: sum(abs(f[k] - q[0][k]) for k in range(3)))
        left.remove(best)
        E.eqs(at.pos, [a * E.const(x) for x in best[0]], 'position of an atom of the cell')
        E.same(at.type, best[1], 'type of an atom of the cell')
    E.done()


HARNESSES = [
    H('repeat', repeat, [{'box': 'tri', 'n': 2, 'reps': [1, 0, 2]}, {'box': 'ortho', 'n': 2, 'reps': [1, 1, 1], 'small': True}, {'box': 'left', 'n': 1, 'reps': [0, 2, 1], 'scale': False},
                         {'box': 'tri', 'n': 2, 'reps': [1, 1, 1], 'given': True, 'small': True}, {'box': 'ortho', 'n': 1, 'reps': [2, 1, 1], 'ghost': True}],
      [{'box': b, 'n': n, 'reps': r, 'small': sm, 'scale': sc, 'given': g} for b in BOXES for n in (1, 3) for r in ([1, 1, 1], [0, 2, 1], [3, 1, 0]) for sm in (False, True) for sc in (True, False) for g in (False, True)]
      + [{'box': b, 'n': n, 'reps': r, 'ghost': True} for b in BOXES for n in (1, 3) for r in ([1, 1, 1], [0, 2, 1])]),
    H('neighbors', neighbors, [{'box': 'ortho', 'reps': [1, 1, 1], 'cutoff': 3.5}, {'box': 'tri', 'reps': [1, 1, 1], 'cutoff': 3}],
      [{'box': b, 'reps': r, 'cutoff': c} for b in BOXES for r in ([1, 1, 1], [2, 1, 1]) for c in (3, 3.5, 4)]),
    H('cubic', cubic, [{'crystal': 'fcc', 'reps': [2, 2, 2]}, {'crystal': 'bcc', 'reps': [2, 2, 2]}, {'crystal': 'cscl', 'reps': [1, 1, 1], 'small': True}, {'crystal': 'tetra', 'reps': [1, 1, 1]}],
      [{'crystal': c, 'reps': [r] * 3, 'small': s} for c in CRYSTALS for r in (2, 3) for s in (False, True)]),
]
