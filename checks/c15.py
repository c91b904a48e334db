"""C15: centrosymmetry."""
import itertools
from functools import cmp_to_key
from engine.harness import H
from .common import atoms_of
from .c13 import crystal, vec2, inverse
from .c04 import SPOTS, BOX, table, separated

PROPERTY = dict(
    title='The centrosymmetry parameter sums over the most opposite pairs of neighbors',
    statement='calculate_centrosymmetry(nmax) gives every atom the sum of the nmax/2 smallest squared lengths of the sums of two of its nmax nearest neighbor vectors, in the order of the atoms of the system, '
              'leaving exactly these nmax neighbors and independent of earlier searches.  It is zero in perfect centrosymmetric crystals of any size and 2 nmax t^2 for an atom moved by a small t.  '
              'Odd or non positive nmax and atoms with fewer neighbors raise an error.',
    quantifier=dict(over=['inputs', 'histories'], text='all positions, boxes, even nmax and earlier searches'),
    why_tests_cant='One test looks at two perfect crystals, where every value is zero.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='calculate_centrosymmetry, calculate_centrosymmetry_atom, get_centrosymmetry', where='system.cpp'), dict(name='System.calculate_centrosymmetry', where='core.py')],
                 observe_at=['System.calculate_centrosymmetry', 'Atom.centrosymmetry', 'Atom.neighbors']))

BOUNDS = ('5 and 6 atoms with one symbolic coordinate and nmax 2 and 4 compared with the definition; fcc and bcc crystals of 32 to 64 atoms with symbolic scale or a symbolic displacement of one atom')
OUTSIDE = 'rounding; ties between neighbors or pairs; nmax above 14'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']


def ascending(E, xs):
    return sorted(xs, key=cmp_to_key(lambda u, v: -1 if bool(u < v) else (1 if bool(v < u) else 0)))


def definition(E, near, nmax):
    """near: (squared distance, vector), ascending"""
    w = []
    for (_, u), (_, v) in itertools.combinations(near[:nmax], 2):
        d = [u[x] + v[x] for x in range(3)]
        w.append(E.dot(d, d))
    return sum(ascending(E, w)[:nmax // 2])


def general(E, n, nmax, which, axis, lo, hi, before='', twice=False):
    pos = [list(p) for p in SPOTS[:n]]
    pos[which][axis] = E.real('x', lo, hi)
    t = table(E, BOX, pos)
    separated(E, t, n)
    s = E.mod('core').System()
    s.box = [list(v) for v in BOX]
    s.set_atoms(atoms_of(E, pos))
    if before == 'cutoff':
        s.find_neighbors(method='cutoff', cutoff=2.5)
    elif before == 'number':
        s.find_neighbors(method='number', nmax=2, threshold=4)
    for k in range(2 if twice else 1):
        vals = s.calculate_centrosymmetry(nmax=nmax)
    E.same(len(vals), n, 'number of values')
    for i in range(n):
        near = sorted([(t[i, j][0], t[i, j][1], j) for j in range(n) if j != i], key=cmp_to_key(lambda u, v: -1 if bool(u[0] < v[0]) else 1))
        a = s.get_atom(i)
        E.same(sorted(a.neighbors), sorted(x[2] for x in near[:nmax]), 'neighbors of atom %d' % i)
        want = definition(E, [x[:2] for x in near], nmax)
        E.eq(vals[i], want, 'value of atom %d' % i, 1e-6)
        E.eq(a.centrosymmetry, want, 'attribute of atom %d' % i, 1e-6)
    E.done()


def perfect(E, kind, k, nmax, moved=False, twice=False):
    a = E.const(4) if moved else E.real('a', 3, 5)
    box, pos = crystal(E, kind, k, a)
    d = 0
    if moved:
        t = E.real('t', -0.1, 0.1)
        d = [t, t / 2, t / 4]
        pos[0] = [pos[0][x] + d[x] for x in range(3)]
    s = E.mod('core').System()
    s.box = box
    s.set_atoms(atoms_of(E, pos))
    for q in range(2 if twice else 1):
        vals = s.calculate_centrosymmetry(nmax=nmax)
    for i, v in enumerate(vals):
        if not moved:
            E.eq(v, 0, 'value of atom %d' % i)
        elif i == 0:
            E.eq(v, 2 * nmax * E.dot(d, d), 'value of the moved atom')
        else:
            q = vec2(E, box, pos[0], pos[i])
            near = bool(q < (9 if kind == 'fcc' else 14))
            # the moved atom is a neighbor of these, and its opposite stayed
            E.eq(v, E.dot(d, d) if near else 0, 'value of atom %d' % i)
    E.done()


def many(E, n, nmax):
    """atoms on a line, most pairs of neighbors of the ends far from opposite"""
    x = E.real('x', 0.96875, 1)
    places = [i + E.frac((i * i * 7) % 11 + i, 64) for i in range(n)]
    s = E.mod('core').System()
    s.box = [[4 * n, 0, 0], [0, 4 * n, 0], [0, 0, 4 * n]]
    s.set_atoms(atoms_of(E, [[x * p + 1, 1, 1] for p in places]))
    vals = s.calculate_centrosymmetry(nmax=nmax)
    num = [E.number(p) for p in places]
    for i in range(n):
        near = sorted((j for j in range(n) if j != i), key=lambda j: abs(num[j] - num[i]))[:nmax]
        pairs = sorted(itertools.combinations(near, 2), key=lambda p: abs(num[p[0]] + num[p[1]] - 2 * num[i]))
        E.eq(vals[i], sum(((places[u] + places[v] - 2 * places[i]) * x) ** 2 for u, v in pairs[:nmax // 2]), 'value of atom %d' % i, 1e-6)
    E.done()


def errors(E, n):
    s = E.mod('core').System()
    s.box = [[20, 0, 0], [0, 20, 0], [0, 0, 20]]
    s.set_atoms(atoms_of(E, [[5 + E.real('x', 0, 1), 5, 5]] + [[7 + i, 5 + 0.5 * i, 6] for i in range(1, n)]))
    for nmax in (0, -2, 3, 5, 4, 12):
        ok = nmax > 0 and nmax % 2 == 0 and nmax < n
        try:
            s.calculate_centrosymmetry(nmax=nmax)
            E.check(ok, 'nmax=%d raises an error' % nmax)
        except (ValueError, RuntimeError):
            E.check(not ok, 'nmax=%d is allowed' % nmax)
    E.done()


HARNESSES = [
    H('general', general, [{'n': 5, 'nmax': 4, 'which': 1, 'axis': 0, 'lo': 2, 'hi': 3, 'before': 'cutoff'}, {'n': 5, 'nmax': 2, 'which': 2, 'axis': 1, 'lo': 1, 'hi': 4, 'twice': True},
                           {'n': 6, 'nmax': 4, 'which': 0, 'axis': 2, 'lo': 0.5, 'hi': 1.5, 'before': 'number'}],
      [{'n': n, 'nmax': m, 'which': w, 'axis': x, 'lo': lo, 'hi': lo + 1.5, 'before': b} for n, m in ((5, 2), (5, 4), (6, 4)) for w in range(3) for x, lo in ((0, 1), (1, 2), (2, 0.5)) for b in ('', 'cutoff')]),
    H('perfect', perfect, [{'kind': 'fcc', 'k': 2, 'nmax': 12, 'twice': True}, {'kind': 'bcc', 'k': 4, 'nmax': 8}, {'kind': 'fcc', 'k': 2, 'nmax': 12, 'moved': True}],
      [{'kind': c, 'k': k, 'nmax': m, 'moved': mv, 'twice': t} for c, k, m in (('fcc', 2, 12), ('fcc', 3, 12), ('bcc', 4, 8), ('bcc', 4, 14)) for mv in (False, True) for t in (False, True)]),
    H('many', many, [{'n': 19, 'nmax': 16}], [{'n': n, 'nmax': m} for n, m in ((19, 16), (26, 24), (30, 6))]),
    H('errors', errors, [{'n': 5}], [{'n': n} for n in (2, 4, 5, 6)]),
]
