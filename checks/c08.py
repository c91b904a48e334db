"""C08: solid bonds and solid atoms."""
from engine.harness import H
from .common import system, small_system, ortho_box
from .c06 import circle, place, BOX

PROPERTY = dict(
    title='Solid atoms are those with enough solid bonds and enough mean coherence',
    statement='The coherence s_ij of an atom and a neighbor is the normalised real product of their complex q_l components, and its mean over the neighbors is '
              'the averaged coherence of the atom.  find_solids marks exactly the atoms with more than `bonds` neighbors (a number, or a fraction of the '
              'coordination) whose coherence exceeds the threshold and whose averaged coherence exceeds the averaged threshold, with both comparisons '
              'reversed when right is False, for the degree q given and whatever was calculated before.  calculate_solidneighbors counts the neighbors with a coherence of '
              'more than 0.6 in q_6.',
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all thresholds, numbers and fractions of bonds, degrees and positions'),
    why_tests_cant='The tests check perfect crystals, where every atom is solid for any thresholds, and the number of solid atoms of one liquid for the default settings.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='get_number_from_bond, calculate_frenkel_numbers, find_solid_atoms', where='system.cpp'), dict(name='find_solids', where='core.py')],
                 observe_at=['Atom.solid', 'Atom.bonds', 'System.calculate_solidneighbors', 'Atom.sij', 'Atom.avg_sij', 'System.find_solids']))

BOUNDS = ('5 atoms with 2 to 4 neighbors each and symbolic thresholds in [0,1], bonds 0 to 4 or a symbolic fraction in [0,1]; 4 atoms, one anywhere on a circle, with fixed thresholds (components made by one bond each); 3 atoms with periodic images as neighbors; l in 2..12 (thorough)')
OUTSIDE = 'rounding; thresholds within 1e-6 of a value they are compared with; atoms without neighbors'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']

VS = [[2, 1, 2], [-1, 2, -2], [-2, -2, 1], [2, -2, -1]]


def coherence(E, s, i, j, l):
    a, b = s.get_atom(i).get_qlm(l), s.get_atom(j).get_qlm(l)
    n = sum(x.real * y.real + x.imag * y.imag for x, y in zip(a, b))
    aa = sum(x.real * x.real + x.imag * x.imag for x in a)
    bb = sum(x.real * x.real + x.imag * x.imag for x in b)
    return n, aa, bb


def check_sij(E, s, i, l, image=lambda j: j):
    a = s.get_atom(i)
    out = list(a.sij)
    t = 0
    for k, j in enumerate(a.neighbors):
        n, aa, bb = coherence(E, s, i, image(j), l)
        v = out[k]
        E.eq(v * v * aa * bb, n * n, 'square of the coherence of %d and %d' % (i, j), 1e-6)
        E.check(v * n >= 0, 'sign of the coherence of %d and %d' % (i, j))
        t = t + v
    E.eq(a.avg_sij * len(a.neighbors), t, 'averaged coherence of %d' % i, 1e-6)
    return out[:len(a.neighbors)], a.avg_sij


def expect(E, sij, avg, thr, avgthr, bonds, right):
    n = 0
    for v in sij:
        E.apart(v, thr)
        if bool(v > thr) == right:
            n += 1
    E.apart(avg, avgthr)
    ok = bool(avg > avgthr) == right
    if isinstance(bonds, int):
        return ok and n > bonds
    E.apart(bonds * len(sij), n)
    return ok and bool(n > bonds * len(sij))


def components(s, mark, n):
    """size of the largest connected set of marked atoms"""
    seen, best = set(), 0
    for i in range(n):
        if mark[i] and i not in seen:
            todo, size = [i], 0
            seen.add(i)
            while todo:
                k = todo.pop()
                size += 1
                for j in s.get_atom(k).neighbors:
                    if mark[j] and j not in seen:
                        seen.add(j)
                        todo.append(j)
            best = max(best, size)
    return best


def thresholds(E, q, right, kind, before=0):
    vs = [[E.const(c) for c in v] for v in VS[:3]]
    s = system(E, BOX, place(vs))
    s.find_neighbors(method='cutoff', cutoff=5.2)
    n = 4
    if before:
        # what was found before, for another degree and direction, does not matter
        s.find_solids(bonds=0.25, threshold=0.1, avgthreshold=0.2, q=2, right=not right)
    thr = E.real('threshold', 0, 1) if kind != 'avg' else 0.25
    av = E.real('avgthreshold', 0, 1) if kind != 'bonds' else (0.0 if right else 1.0)
    if kind == 'fraction':
        bonds = E.real('fraction', 0, 1)
        thr, av = 0.25, (0.0 if right else 1.0)
    elif kind == 'avg':
        bonds = 0
    else:
        bonds = E.choice('bonds', range(4))
    lc = s.find_solids(bonds=bonds, threshold=thr, avgthreshold=av, q=q, right=right)
    mark = []
    for i in range(n):
        sij, avg = check_sij(E, s, i, q)
        want = expect(E, sij, avg, thr, av, bonds, right)
        E.same(bool(s.get_atom(i).solid), want, 'atom %d is solid' % i)
        E.same(s.get_atom(i).bonds, sum(1 for v in sij if bool(v > thr) == right), 'number of solid bonds of %d' % i)
        mark.append(want)
    E.same(lc, components(s, mark, n), 'size of the largest solid cluster')
    E.same([i for i in range(n) if s.get_atom(i).solid], [i for i in range(n) if mark[i]], 'solid atoms')
    E.done()


def turning(E, q, bonds, right, kind='thr'):
    """one atom anywhere on a circle"""
    c, d = circle(E, 'phi')
    p = [[E.const(x) for x in v] for v in ([20, 20, 20], [22, 21, 22], [19, 22, 22])] + [[20 + 1.5 * c, 20 + 1.5 * d, E.const(18)]]
    s = system(E, BOX, p)
    s.find_neighbors(method='cutoff', cutoff=5.5)
    # each atom looks at one neighbor only, so that its norm is fixed and the coherences are polynomials
    for i, j in enumerate((3, 2, 0, 0)):
        a = s.get_atom(i)
        a.neighbor_weights = [1 if k == j else 0 for k in a.neighbors]
        s.set_atom(a)
    thr, av = 0.25, (0.0 if right else 1.0)
    if kind == 'avg':
        thr, av = (0.0 if right else 1.0), 0.125
    s.find_solids(bonds=bonds, threshold=thr, avgthreshold=av, q=q, right=right, cluster=False)
    for i in range(4):
        sij, avg = check_sij(E, s, i, q)
        want = expect(E, sij, avg, thr, av, bonds, right)
        E.same(bool(s.get_atom(i).solid), want, 'atom %d is solid' % i)
        E.same(s.get_atom(i).bonds, sum(1 for v in sij if bool(v > thr) == right), 'number of solid bonds of %d' % i)
    E.done()


def images(E, q, right, axis=0, full=0):
    """small box: coherence with periodic images is that with the atom itself"""
    e = [15, 16]
    e.insert(axis, 5)
    p = []
    for c in (0.5, 1.25, 2.875):
        r = [1, 2]
        r.insert(axis, c)
        p.append(r)
    p[1][(axis + 1) % 3] += 0.75
    p[2][(axis + 2) % 3] += 0.5
    s = small_system(E, ortho_box(*e), p)
    s.find_neighbors(method='cutoff', cutoff=3.25)
    thr, av = E.real('threshold', 0, 1), E.real('avgthreshold', 0, 1) if full else 0.0 if right else 1.0
    E.check(any(j > 2 for i in range(3) for j in s.get_atom(i).neighbors), 'images are neighbors')
    s.find_solids(bonds=1, threshold=thr, avgthreshold=av, q=q, right=right, cluster=False)
    for i in range(3):
        sij, avg = check_sij(E, s, i, q, image=lambda j: j % 3)
        want = expect(E, sij, avg, thr, av, 1, right)
        E.same(bool(s.get_atom(i).solid), want, 'atom %d is solid' % i)
        E.same(s.get_atom(i).bonds, sum(1 for v in sij if bool(v > thr) == right), 'number of solid bonds of %d' % i)
    E.done()


def neighbors(E, before, axis=0):
    """solid bonds on their own"""
    vs = [[E.const(c) for c in v] for v in VS[:3]]
    p = place(vs)
    s = system(E, BOX, p)
    cut = E.real('cut', 2.5, 6.5)
    for i in range(4):
        for j in range(i):
            d2 = sum((p[i][x] - p[j][x]) ** 2 for x in range(3))
            E.apart(cut * cut, d2)
    s.find_neighbors(method='cutoff', cutoff=cut)
    E.assume(all(len(s.get_atom(i).neighbors) for i in range(4)))
    if before == 'solids':
        s.find_solids(bonds=0.25, threshold=0.1, avgthreshold=0.2, q=4, right=False)
    elif before == 'q':
        s.calculate_q([4, 6])
    s.calculate_solidneighbors()
    for i in range(4):
        sij, avg = check_sij(E, s, i, 6)
        n = 0
        for v in sij:
            E.apart(v, E.const(0.6))
            if v > E.const(0.6):
                n += 1
        E.same(s.get_atom(i).bonds, n, 'solid bonds of atom %d' % i)
    E.done()


HARNESSES = [
    H('neighbors', neighbors, [{'before': ''}, {'before': 'solids'}], [{'before': b} for b in ('', 'q', 'solids')]),
    H('thresholds', thresholds, [{'q': 6, 'right': True, 'kind': 'number'}, {'q': 4, 'right': False, 'kind': 'number', 'before': 1}, {'q': 3, 'right': True, 'kind': 'fraction', 'before': 1},
                                 {'q': 8, 'right': False, 'kind': 'fraction'}, {'q': 12, 'right': True, 'kind': 'avg'}, {'q': 2, 'right': True, 'kind': 'bonds'}],
      [{'q': q, 'right': r, 'kind': k, 'before': b} for q in range(2, 13) for r in (True, False) for k in ('number', 'fraction', 'avg', 'bonds') for b in (0, 1)]),
    H('turning', turning, [{'q': 2, 'bonds': 0, 'right': True}, {'q': 3, 'bonds': 1, 'right': False}], [{'q': q, 'bonds': b, 'right': r, 'kind': k} for q in (2, 3, 4) for b in (0, 1) for r in (True, False) for k in ('thr', 'avg')]),
    H('images', images, [{'q': 4, 'right': True}, {'q': 2, 'right': False, 'axis': 1}], [{'q': q, 'right': r, 'axis': a, 'full': 1} for q in (2, 4, 6) for r in (True, False) for a in range(3)]),
]
