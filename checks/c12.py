"""C12: mapping atoms back into the box."""
import itertools
import math
from engine.harness import H
from .common import atoms_of, ortho_box

PROPERTY = dict(
    title='Remapping moves every atom into the box by whole box vectors',
    statement='After remap_atoms every atom lies within the box (fractional coordinates at least 0 and less than 1), displaced from where it was by a whole number of box vectors, '
              'with order, type and id kept, and if images are removed exactly those atoms are gone that have a later one within dtol across the boundaries.  '
              'With assign=False the atoms are returned and the system keeps the atoms, copies and box it had.  remap_atom does the same for a single position within one box of it.',
    quantifier=dict(over=['inputs'], text='all positions, orthogonal and triclinic boxes, with and without periodic copies, all options'),
    why_tests_cant='One test moves one atom of a cubic box; tilted boxes, atoms several boxes away and images at edges and corners are never tried.',
    anchors=dict(files=['src/pyscal/core.py', 'src/pyscal/system.cpp'],
                 mechanism=[dict(name='System.remap_atoms', where='core.py'), dict(name='System::remap_atom', where='system.cpp')],
                 observe_at=['System.remap_atoms', 'System.remap_atom', 'System.atoms', 'System.box']))

BOUNDS = ('2 to 4 atoms with symbolic fractional coordinates up to 2.5 boxes away; three orthogonal and three triclinic boxes (one left handed), one with symbolic edges')
OUTSIDE = 'rounding (an atom at -1e-17 ends on the upper boundary); atoms exactly dtol apart; dtol other than 0.1 and 0.5'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'numpy.linalg.inv returns the inverse']

BOXES = {'ortho': [[4, 0, 0], [0, 8, 0], [0, 0, 16]], 'tri': [[4, 0, 0], [1, 8, 0], [0.5, -2, 4]], 'left': [[0, 4, 0], [8, 1, 0], [0, 0, 4]],
         'tilt': [[4, 0, 0], [-3, 4, 0], [0, 0, 8]]}


def place(E, fr, b):
    return [sum(fr[i] * b[i][x] for i in range(3)) for x in range(3)]


def start(E, box, fracs, ghosts):
    b = [[E.const(x) for x in v] for v in BOXES[box]]
    s = E.mod('core').System()
    s.box = [list(v) for v in b]
    pos = [place(E, f, b) for f in fracs]
    atoms = atoms_of(E, pos, [E.int('t0', 1, 4)] + [1 + i % 2 for i in range(1, len(pos))], [11 * i + 5 for i in range(len(pos))])
    if ghosts:
        s.atoms = atoms
    else:
        s.set_atoms(atoms)
    return s, b, pos, atoms


def fractions(E, n, lo, hi):
    base = [[0.25, 0.5, 0.75], [0.75, 0.25, 0.375], [0.125, 0.875, 0.625], [0.5, 0.125, 0.25]]
    fr = [[E.const(x) for x in f] for f in base[:n]]
    fr[0] = [E.real('f%d' % x, lo, hi) if x < 2 else fr[0][x] for x in range(3)]
    if n > 1:
        fr[1][2] = E.real('g', lo, hi)
    clear(E, [fr[0][0], fr[0][1]] + [f[2] for f in fr[1:2]], lo, hi)
    return fr


def clear(E, fs, lo, hi):
    for f in fs:
        for k in range(math.ceil(lo), math.floor(hi) + 1):
            E.apart(f, k)


def wrapped(E, f):
    """the fractional coordinate within the box, by its definition"""
    return f - E.floor(f)


def inside(E, s, box, n, ghosts, assign, lo=-1.5, hi=2.5, images=False, remove=False):
    fr = fractions(E, n, lo, hi)
    s, b, pos, atoms = start(E, box, fr, ghosts)
    tot, inner = s.ntotal, s._box
    got = s.remap_atoms(remove_images=images, assign=assign, remove_atoms=remove, **({'dtol': 0.01} if images else {}))
    if assign:
        E.same(got, None, 'nothing returned')
        got = s.atoms
        E.eqs(s.box, b, 'box')
    else:
        for i, a in enumerate(s.atoms):
            E.eqs(a.pos, pos[i], 'atom %d of the system stays' % i)
        E.eqs(s._box, inner, 'inner box stays')
        E.eqs(s.box, b, 'box stays')
        E.same(s.ntotal, tot, 'copies stay')
    E.same(s.ntotal > s.natoms, ghosts or assign, 'copies')
    return s, b, fr, got


def remap(E, box, n=2, ghosts=False, assign=False, lo=-1.5, hi=2.5, remove=False):
    s, b, fr, got = inside(E, None, box, n, ghosts, assign, lo, hi, remove=remove)
    E.same(len(got), n, 'number of atoms')
    for i, a in enumerate(got):
        E.eqs(a.pos, place(E, [wrapped(E, f) for f in fr[i]], b), 'position of atom %d' % i)
        E.same(a.id, 11 * i + 5, 'id of atom %d' % i)
        if i:
            E.same(a.type, 1 + i % 2, 'type of atom %d' % i)
    E.done()


def images(E, box, which, assign=False, ghosts=False, dtol=0.1):
    """atoms near the faces, edges or corners of the box, some of them images of others"""
    b = [[E.const(x) for x in v] for v in BOXES[box]]
    d = E.real('d', 0, 0.125)
    sh = [E.const(1) if c == '1' else E.const(0) for c in which]
    fr = [[E.const(0), E.const(0), E.const(0)], [E.const(0.5), E.const(0.5), E.const(0.5)], list(sh), [E.const(0.5), E.const(0), E.const(0.5)]]
    # the third atom is an image of the first, displaced along the first box vector
    fr[2][0] = fr[2][0] - d if which[0] == '1' else fr[2][0] + d
    s, b, pos, atoms = start(E, box, fr, ghosts)
    length = E.sqrt(E.dot(b[0], b[0]))
    dist = d * length
    E.apart(dist, dtol)
    got = s.remap_atoms(assign=assign, dtol=dtol)
    if assign:
        got = s.atoms
    gone = bool(dist < dtol)
    E.same([a.id for a in got], ([16, 27, 38] if gone else [5, 16, 27, 38]), 'atoms kept')
    for a in got:
        i = (a.id - 5) // 11
        E.eqs(a.pos, place(E, [wrapped(E, f) for f in fr[i]], b), 'position of atom %d' % i)
    E.done()


def single(E, box):
    """remap_atom"""
    b = [[E.const(x) for x in v] for v in BOXES[box]]
    s = E.mod('core').System()
    s.box = [list(v) for v in b]
    fr = [E.real('f%d' % x, -0.99, 1.99) for x in range(3)]
    clear(E, fr, -0.99, 1.99)
    got = s.remap_atom(place(E, fr, b))
    E.eqs(list(got), place(E, [wrapped(E, f) for f in fr], b), 'position')
    E.done()


def edges(E):
    """orthogonal box of any size"""
    la, lb = E.real('la', 3, 6), E.real('lb', 3, 6)
    s = E.mod('core').System()
    s.box = [[la, 0, 0], [0, lb, 0], [0, 0, 4]]
    x, y = E.real('x', -1, 1), E.real('y', 5, 8)
    s.set_atoms(atoms_of(E, [[x, 1, 2], [1, y, 3], [1, 1, 4]]))
    got = s.remap_atoms(remove_images=False, assign=False)
    for i, (a, l, v) in enumerate(((0, la, x), (1, lb, y))):
        p = got[i].pos[i]
        E.check(E.all([p >= 0, p < l]), 'atom %d is in the box' % i)
        k = E.floor(E.div(v, l))
        E.eq(p + k * l, v, 'atom %d moved by whole boxes' % i)
    E.eqs(got[2].pos, [1, 1, 0], 'atom on the boundary')
    E.done()


HARNESSES = [
    H('remap', remap, [{'box': 'tri', 'ghosts': True, 'assign': False, 'lo': -0.5, 'hi': 1.5}, {'box': 'ortho', 'assign': True, 'lo': -0.5, 'hi': 1.5}, {'box': 'tilt', 'n': 3, 'remove': True},
                       {'box': 'left', 'n': 4}],
      [{'box': b, 'n': n, 'ghosts': g, 'assign': a, 'remove': r} for b in BOXES for n in (2, 4) for g, a in ((False, False), (True, False), (False, True), (True, True)) for r in (False, True)]),
    H('images', images, [{'box': 'ortho', 'which': '100'}, {'box': 'tri', 'which': '111'}, {'box': 'tilt', 'which': '010', 'assign': True}],
      [{'box': b, 'which': ''.join(w), 'assign': a, 'ghosts': g, 'dtol': t} for b in BOXES for w in itertools.product('01', repeat=3) for a, g in ((False, False), (True, True)) for t in (0.1, 0.25)]),
    H('single', single, [{'box': b} for b in BOXES], [{'box': b} for b in BOXES]),
    H('edges', edges, [{}]),
]
