"""C07: averaged Steinhardt parameters."""
from engine.harness import H
from .common import system, small_system, ortho_box
from .c06 import circle, PI

PROPERTY = dict(
    title='Averaged q_l is built from the mean components of an atom and its neighbors',
    statement='The averaged complex components of an atom are the mean of the components of the atom itself and of all its neighbors (with a condition: '
              'of those in the same state), and the averaged q_l is their norm.  This holds as well for the periodic images that serve as neighbors in '
              'small boxes, with and without a condition, and when only the averaged values are requested after the plain ones.',
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all neighbor lists, degrees, conditions, box sizes and orders of calls'),
    why_tests_cant='The tests check one averaged value of a perfect crystal, where all atoms have the same components and any mean gives the same value.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py', 'src/pyscal/atom.cpp'],
                 mechanism=[dict(name='calculate_aq, gaqvals', where='system.cpp'), dict(name='calculate_q, _assign_condition, get_qvals', where='core.py'),
                            dict(name='get_qcomps, gq_big', where='atom.cpp')],
                 observe_at=['System.get_qvals(averaged=True)', 'Atom.get_q(averaged=True)', 'Atom.get_qlm(averaged=True)']))

BOUNDS = ('4 atoms in a large box with one atom on a symbolic circle, or 3 atoms on a line with their 78 periodic images and one symbolic coordinate; '
          'l in {2,3,4,6,8,11}; all assignments of a condition')
OUTSIDE = 'rounding; atoms without (matching) neighbors'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']

BOX = ortho_box(40, 41, 42)
LINKS = {0: [1, 2, 3], 1: [0, 2], 2: [0, 1], 3: [0]}


def mean(E, s, i, l, lists, state, tag='', image=lambda j: j):
    a = s.get_atom(i)
    m = [i] + [image(j) for j in lists[i] if state is None or state[image(j)] == state[i]]
    comps = [s.get_atom(j).get_qlm(l) for j in m]
    got = a.get_qlm(l, averaged=True)
    E.same(len(got), 2 * l + 1, tag + 'number of components')
    t = 0
    for k in range(2 * l + 1):
        re = sum(c[k].real for c in comps) / len(m)
        im = sum(c[k].imag for c in comps) / len(m)
        E.eq(got[k].real, re, tag + 'averaged component %d of atom %d' % (k - l, i), 1e-6)
        E.eq(got[k].imag, im, tag + 'averaged component %d of atom %d' % (k - l, i), 1e-6)
        t = t + got[k].real * got[k].real + got[k].imag * got[k].imag
    q = a.get_q(l, averaged=True)
    E.check(q >= 0, tag + 'averaged q is not negative')
    E.eq(q * q, t * E.const(4 * PI / (2 * l + 1)), tag + 'averaged q%d of atom %d' % (l, i), 1e-6)
    E.eq(s.get_qvals(l, averaged=True)[i], q, tag + 'get_qvals')
    E.eq(a.get_q([l], averaged=True)[0], q, tag + 'get_q of a list')
    E.eq(a.allaq[l - 2], q, tag + 'allaq')


def direct(E, l, cond, how):
    """chosen neighbor lists in a large box"""
    c, d = circle(E, 'phi')
    p = [[20, 20, 20], [22, 21, 22], [19, 22, 22], [20 + 1.5 * c, 20 + 1.5 * d, 17.5]]
    s = system(E, BOX, p)
    s.find_neighbors(method='cutoff', cutoff=3.7)
    lists = LINKS
    for i in range(4):
        E.same(list(s.get_atom(i).neighbors), lists[i], 'neighbors')
    st = None
    if cond:
        st = [1, 1, 0, 1] if cond == 1 else [0, 0, 0, 1] if cond == 2 else [1, 1, 1, 1]
        s.calculate_q(l)
        s.calculate_q(l, averaged=True, only_averaged=True, condition=lambda a: st[a.loc])
    elif how == 'together':
        s.calculate_q([l], averaged=True)
    else:
        s.calculate_q([l, 2])
        s.calculate_q(l, only_averaged=True)
    for i in range(4):
        mean(E, s, i, l, lists, st)
    E.done()


def images(E, l, cond, axis=0):
    """three atoms on a line in a small box: some of the neighbors are periodic images"""
    e = [15, 16]
    e.insert(axis, 5)
    x = E.real('x', -0.25, 0.25)
    p = []
    for c in (0.5, 1.5 + x, 2.875):
        q = [1, 2]
        q.insert(axis, c)
        p.append(q)
    s = small_system(E, ortho_box(*e), p)
    s.find_neighbors(method='cutoff', cutoff=1.8)
    st = None
    lists = {i: list(s.get_atom(i).neighbors) for i in range(3)}
    E.same([sorted(j % 3 for j in lists[i]) for i in range(3)], [[1], [0, 2], [1]], 'neighbors')
    s.find_neighbors(method='cutoff', cutoff=3.125)
    lists = {i: list(s.get_atom(i).neighbors) for i in range(3)}
    E.same([sorted(j % 3 for j in lists[i]) for i in range(3)], [[1, 2, 2], [0, 2], [0, 0, 1]], 'neighbors and images')
    if cond:
        st = [1, 0, 1] if cond == 1 else [1, 1, 1] if cond == 2 else [0, 1, 0]
        s.calculate_q(l)
        s.calculate_q(l, only_averaged=True, condition=lambda a: st[a.loc])
    else:
        s.calculate_q(l, averaged=True)
    for i in range(3):
        if not cond or cond == 2 or i != 1:
            mean(E, s, i, l, lists, st, image=lambda j: j % 3)
    E.done()


HARNESSES = [
    H('direct', direct, [{'l': 6, 'cond': 0, 'how': 'together'}, {'l': 3, 'cond': 0, 'how': 'after'}, {'l': 4, 'cond': 1, 'how': ''}, {'l': 11, 'cond': 2, 'how': ''}],
      [{'l': l, 'cond': c, 'how': h} for l in (2, 3, 4, 6, 8, 11) for c, h in ((0, 'together'), (0, 'after'), (1, ''), (2, ''), (3, ''))]),
    H('images', images, [{'l': 2, 'cond': 0}, {'l': 4, 'cond': 1}, {'l': 3, 'cond': 2, 'axis': 2}],
      [{'l': l, 'cond': c, 'axis': a} for l in (2, 3, 4) for c in range(3) for a in range(3)]),
]
