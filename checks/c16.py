"""C16: disorder variables."""
from engine.harness import H
from .common import system, small_system, ortho_box
from .c06 import circle, place, BOX

PROPERTY = dict(
    title='Disorder is the mean loss of coherence between an atom and its neighbors',
    statement='The disorder of an atom is the mean over its neighbors of 2 - 2 s_ij, with s_ij the normalised real product of the complex q_l components of the two atoms, '
              'for the degree given; the averaged disorder is the mean over the atom and its neighbors. Both use the neighbor list of the atom, whatever its order and also when '
              'neighbors are periodic copies, and identical environments give zero.  The coherence of two atoms is symmetric and 1 for an atom with itself.',
    quantifier=dict(over=['inputs', 'configurations'], text='all positions, neighbor lists and degrees'),
    why_tests_cant='The tests compare the mean over all atoms of a crystal and of a liquid with rough limits.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='calculate_disorder, find_average_disorder, get_number_from_bond', where='system.cpp'), dict(name='calculate_disorder', where='core.py')],
                 observe_at=['Atom.disorder', 'Atom.avg_disorder', 'System.get_number_from_bond']))

BOUNDS = ('4 atoms with chosen neighbor lists, one of them anywhere on a circle around another (the components of each atom made by one bond); 3 atoms of one geometry and any scale in a small box with periodic copies; l in 2..12')
OUTSIDE = 'rounding; atoms without neighbors'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']


def coherence(E, a, b, l):
    x, y = a.get_qlm(l), b.get_qlm(l)
    n = sum(u.real * v.real + u.imag * v.imag for u, v in zip(x, y))
    aa = sum(u.real * u.real + u.imag * u.imag for u in x)
    bb = sum(v.real * v.real + v.imag * v.imag for v in y)
    return E.div(n, E.sqrt(bb) * E.sqrt(aa))


def verify(E, s, n, l, image=lambda j: j, averaged=True):
    at = [s.get_atom(i) for i in range(n)]
    dis = []
    one = [coherence(E, a, a, l) for a in at]      # 1, left as a quotient so that the solver need not simplify it
    for i in range(n):
        t = 0
        nb = [image(j) for j in at[i].neighbors]
        for j in nb:
            t = t + one[i] + one[j] - 2 * coherence(E, at[i], at[j], l)
        dis.append(t / len(nb))
        E.eq(at[i].disorder, dis[i], 'disorder of atom %d' % i, 1e-6)
    if averaged:
        for i in range(n):
            nb = [image(j) for j in at[i].neighbors]
            E.eq(at[i].avg_disorder, (dis[i] + sum(dis[j] for j in nb)) / (len(nb) + 1), 'averaged disorder of atom %d' % i, 1e-6)


LISTS = [[[3, 1], [0, 2], [1], [0]], [[1], [2, 0], [3, 1], [2]], [[1, 2, 3], [0, 2], [0, 1], [0]]]


def turning(E, l, lists):
    c, d = circle(E, 'phi')
    p = [[E.const(x) for x in v] for v in ([20, 20, 20], [22, 21, 22], [19, 22, 22])] + [[20 + 1.5 * c, 20 + 1.5 * d, E.const(18)]]
    s = system(E, BOX, p)
    s.find_neighbors(method='cutoff', cutoff=5.5)
    for i in range(4):
        E.same(sorted(s.get_atom(i).neighbors), [j for j in range(4) if j != i], 'neighbors')
    # each atom looks at one neighbor only, so that its norm is fixed and the coherences are Legendre polynomials
    for i, j in enumerate((3, 2, 0, 0)):
        a = s.get_atom(i)
        a.neighbor_weights = [1 if k == j else 0 for k in a.neighbors]
        s.set_atom(a)
    s.calculate_q(l)
    for i in range(4):
        a = s.get_atom(i)
        a.neighbors = LISTS[lists][i]
        s.set_atom(a)
    s.calculate_disorder(averaged=True, q=l)
    verify(E, s, 4, l)
    for i, j in ((0, 3), (1, 2), (2, 2)):
        a, b = s.get_atom(i), s.get_atom(j)
        v = s.get_number_from_bond(a, b)
        E.eq(v, coherence(E, a, b, l), 'coherence of atoms %d and %d' % (i, j), 1e-6)
        E.eq(s.get_number_from_bond(b, a), v, 'coherence of atoms %d and %d' % (j, i), 1e-6)
    E.done()


def images(E, l, axis=0):
    """some of the neighbors are periodic copies"""
    e = [15, 16]
    e.insert(axis, 5)
    a = E.real('scale', 0.5, 2)
    p = []
    for c in (0.5, 1.75, 2.875):
        q = [1, 2]
        q.insert(axis, c)
        p.append(q)
    p[0][(axis + 1) % 3] += 1
    s = small_system(E, ortho_box(*[a * x for x in e]), [[a * x for x in q] for q in p])
    s.find_neighbors(method='cutoff', cutoff=3.25 * a)
    E.check(any(j > 2 for j in s.get_atom(0).neighbors), 'copies are neighbors')
    s.calculate_q(l)
    s.calculate_disorder(averaged=True, q=l)
    verify(E, s, 3, l, image=lambda j: j % 3)
    E.done()


def ideal(E, l):
    """the same environment everywhere: no disorder"""
    core = E.mod('core')
    cs = E.mod('crystal_structures')
    a = E.real('a', 1, 4)
    s = core.System()
    atoms, s.box = cs.make_crystal('sc', lattice_constant=a, repetitions=[1, 1, 1])
    s.set_atoms(s.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True))
    s.find_neighbors(method='cutoff', cutoff=1.25 * a)
    s.calculate_q(l)
    s.calculate_disorder(averaged=True, q=l)
    E.same(s.get_atom(0).coordination, 6, 'coordination')
    E.eq(s.get_atom(0).disorder, 0, 'disorder', 1e-6)
    E.eq(s.get_atom(0).avg_disorder, 0, 'averaged disorder', 1e-6)
    E.done()


HARNESSES = [
    H('turning', turning, [{'l': 2, 'lists': 0}, {'l': 3, 'lists': 1}, {'l': 6, 'lists': 0}, {'l': 4, 'lists': 2}, {'l': 8, 'lists': 1}, {'l': 12, 'lists': 0}],
      [{'l': l, 'lists': k} for l in range(2, 13) for k in range(3)]),
    H('images', images, [{'l': 2}, {'l': 3, 'axis': 2}], [{'l': l, 'axis': a} for l in (2, 3, 4, 5) for a in range(3)]),
    H('ideal', ideal, [{'l': 6}, {'l': 4}]),
]
