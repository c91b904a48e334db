"""C13: common neighbor analysis."""
import itertools
from engine.harness import H
from .common import atoms_of

PROPERTY = dict(
    title='CNA assigns the structure its common neighbor signatures stand for',
    statement='calculate_cna assigns fcc to an atom whose 12 nearest neighbors all have signature 421 with one bond each, hcp where 6 are of this and 6 of the other 422 kind, icosahedral with twelve 555, '
              'bcc with six 444 and eight 666 among 14, and unknown otherwise, with bonds shorter than the conventional (lattice constant) or adaptive (mean distance) cutoff.  '
              'Perfect fcc, hcp and bcc crystals of any size, and slightly distorted ones, are recognised; the dictionary returned counts the atoms of the system; '
              'nothing depends on what was calculated before, and atoms with too few neighbors are unknown.',
    quantifier=dict(over=['inputs', 'histories'], text='all atom positions and lattice constants, both variants, and any calculation before'),
    why_tests_cant='Four perfect crystals of one size are tried once each.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='calculate_cna, get_cna_neighbors, get_acna_neighbors, get_common_neighbors, get_common_bonds, identify_cn12, identify_cn14', where='system.cpp'),
                            dict(name='System.calculate_cna', where='core.py')],
                 observe_at=['System.calculate_cna', 'Atom.structure']))

BOUNDS = ('crystals of 32 to 64 atoms with symbolic scale, or with one atom displaced by a symbolic amount along a line; an isolated icosahedron of symbolic size; a group of 8 atoms too few to have 12 neighbors')
OUTSIDE = 'rounding; atoms exactly at the cutoff or at equal distances from different shells'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']
BUDGET_QUICK = 400

FCC = [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]
BCC = [[0, 0, 0], [.5, .5, .5]]


def crystal(E, kind, k, a):
    """box and positions of k*k*k cells of size a"""
    if kind == 'hcp':
        # orthogonal cell of 4 atoms, with approximate irrational proportions (ideal to 1e-9)
        s3, s83 = E.frac(1732050808, 10 ** 9), E.frac(1632993162, 10 ** 9)
        base = [[E.const(0), E.const(0), E.const(0)], [E.frac(1, 2), s3 * E.frac(1, 2), E.const(0)], [E.frac(1, 2), s3 * E.frac(1, 6), s83 * E.frac(1, 2)], [E.const(0), s3 * E.frac(2, 3), s83 * E.frac(1, 2)]]
        cell = [E.const(1), s3, s83]
        ks = (4, 2, 2)
    else:
        base = [[E.const(x) for x in p] for p in (FCC if kind == 'fcc' else BCC)]
        cell = [E.const(1)] * 3
        ks = (k, k, k)
        if kind == 'bcc':
            # primitive cells: less atoms
            vec = [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]
            return ([[a * E.const(k * x) for x in v] for v in vec],
                    [[a * E.const(sum(c[i] * vec[i][x] for i in range(3))) for x in range(3)] for c in itertools.product(range(k), repeat=3)])
    pos = []
    for c in itertools.product(*[range(n) for n in ks]):
        for p in base:
            pos.append([a * (p[x] + c[x] * cell[x]) for x in range(3)])
    return [[a * cell[x] * ks[x] if x == y else 0 for y in range(3)] for x in range(3)], pos


NAME = {0: 'others', 1: 'fcc', 2: 'hcp', 3: 'bcc', 4: 'ico'}


def run(E, s, lattice=None):
    return s.calculate_cna() if lattice is None else s.calculate_cna(lattice_constant=lattice)


def perfect(E, kind, k, adaptive, before='', twice=False):
    a = E.real('a', 3, 5)
    box, pos = crystal(E, kind, k, a)
    s = E.mod('core').System()
    s.box = box
    s.set_atoms(atoms_of(E, pos))
    if before == 'cutoff':
        s.find_neighbors(method='cutoff', cutoff=3)
    elif before == 'number':
        s.find_neighbors(method='number', nmax=6, assign_neighbor=False)
    for t in range(2 if twice else 1):
        res = run(E, s, None if adaptive else a)
        want = {'fcc': 1, 'bcc': 3, 'hcp': 2}[kind]
        E.same({q: int(v) for q, v in res.items()}, {n: (len(pos) if i == want else 0) for i, n in NAME.items()}, 'counts')
        for i, at in enumerate(s.atoms):
            E.same(at.structure, want, 'structure of atom %d' % i)
    E.done()


def nearest(E, box, pos, i):
    """squared distances of nearest images of all other atoms in an orthogonal box, ascending"""
    out = []
    for j, q in enumerate(pos):
        if j == i:
            continue
        out.append((vec2(E, box, pos[i], q), j))
    # ascending; the order among equals does not matter
    from functools import cmp_to_key
    return sorted(out, key=cmp_to_key(lambda u, v: 0 if u[1] == v[1] else (-1 if bool(u[0] < v[0]) else 1)))


def inverse(E, box):
    b = [[E.number(x) for x in v] for v in box]
    det = sum(b[0][i] * (b[1][(i + 1) % 3] * b[2][(i + 2) % 3] - b[1][(i + 2) % 3] * b[2][(i + 1) % 3]) for i in range(3))
    return [[(b[(j + 1) % 3][(i + 1) % 3] * b[(j + 2) % 3][(i + 2) % 3] - b[(j + 1) % 3][(i + 2) % 3] * b[(j + 2) % 3][(i + 1) % 3]) / det for j in range(3)] for i in range(3)]


def vec2(E, box, p, q):
    d = [q[x] - p[x] for x in range(3)]
    inv = inverse(E, box)
    # which image is near can be seen from rough values
    n = [round(sum(E.number(d[x]) * inv[x][j] for x in range(3))) for j in range(3)]
    d = [d[x] - sum(n[j] * box[j][x] for j in range(3)) for x in range(3)]
    return E.dot(d, d)


def signatures(E, box, pos, nb, cut2):
    """CNA signature of each neighbor of an atom"""
    bond = {}
    for u, v in itertools.combinations(nb, 2):
        d = vec2(E, box, pos[u], pos[v])
        E.apart(d, cut2, 1e-4)
        bond[u, v] = bond[v, u] = bool(d < cut2)
    out = []
    for u in nb:
        com = [v for v in nb if v != u and bond[u, v]]
        deg = [sum(bond[v, w] for w in com if w != v) for v in com]
        out.append((len(com), sum(deg) // 2, max(deg, default=0), min(deg, default=8)))
    return out


def shells(E, near, n):
    """all sets of the n nearest: neighbors at equal distance at the end of the list can be chosen in any way"""
    last = near[n - 1][0]
    tied = [k for k in range(len(near)) if k == n - 1 or E.tied(near[k][0], last)]
    if tied[-1] < len(near) - 1:
        E.apart(last, near[tied[-1] + 1][0], 1e-4)
    first = [k for k in range(n) if k not in tied]
    return [first + list(c) for c in itertools.combinations(tied, n - len(first))]


def definition(E, box, pos, i, lattice):
    near = nearest(E, box, pos, i)[:20]
    d = [E.sqrt(q) for q, j in near[:14]]
    cut = sum(d[:12]) * E.frac(1207, 12000) if lattice is None else lattice * E.frac(854, 1000)
    found = set()
    for chosen in shells(E, near, 12):
        sig = signatures(E, box, pos, [near[k][1] for k in chosen], cut * cut)
        if sig.count((4, 2, 1, 1)) == 12:
            found.add(1)
        elif sig.count((4, 2, 1, 1)) == 6 and sig.count((4, 2, 2, 0)) == 6:
            found.add(2)
        elif sig.count((5, 5, 2, 2)) == 12:
            found.add(4)
        else:
            found.add(0)
    E.assume(len(found) == 1)
    if found != {0}:
        return found.pop()
    if len(near) > 14:
        E.apart(near[13][0], near[14][0], 1e-4)
    cut = (sum(d[:8]) * E.frac(11547, 10000) + sum(d[8:14])) * E.frac(1207, 14000) if lattice is None else lattice * E.frac(1207, 1000)
    sig = signatures(E, box, pos, [j for q, j in near[:14]], cut * cut)
    if sig.count((4, 4, 2, 2)) == 6 and sig.count((6, 6, 2, 2)) == 8:
        return 3
    return 0


def displaced(E, kind, k, adaptive, lo, hi, direction, look):
    """one atom displaced along a line"""
    a = E.const(4)
    box, pos = crystal(E, kind, k, a)
    t = E.real('t', lo, hi)
    pos[0] = [pos[0][x] + t * E.const(direction[x]) for x in range(3)]
    s = E.mod('core').System()
    s.box = box
    s.set_atoms(atoms_of(E, pos))
    res = run(E, s, None if adaptive else 4)
    got = [at.structure for at in s.atoms]
    for i in look:
        E.same(got[i], definition(E, box, pos, i, None if adaptive else a), 'structure of atom %d' % i)
    E.same({q: int(v) for q, v in res.items()}, {n: got.count(i) for i, n in NAME.items()}, 'counts')
    E.done()


def icosahedron(E, adaptive=True, outside=False):
    g = E.frac(8, 5)
    r = E.real('r', 1, 1.25)
    pts = []
    for s1 in (1, -1):
        for s2 in (1, -1):
            pts += [[E.const(0), E.const(s1), s2 * g], [E.const(s1), s2 * g, E.const(0)], [s2 * g, E.const(0), E.const(s1)]]
    pos = [[10 * r] * 3] + [[10 * r + r * x for x in p] for p in pts]
    # some further atoms far enough to be no neighbors but required for the 14
    pos += [[r * (10 + 5 * x), r * (10 + 5 * y), r * (10 + 5 * z)] for x in (1, -1) for y in (1, -1) for z in (1, -1)]
    s = E.mod('core').System()
    s.box = [[20 * r, 0, 0], [0, 20 * r, 0], [0, 0, 20 * r]]
    s.set_atoms(atoms_of(E, pos))
    res = run(E, s, None if adaptive else 2.5 * r)
    E.same(s.get_atom(0).structure, 4, 'structure of the centre')
    E.check(int(res['ico']) >= 1, 'count')
    E.done()


def few(E, adaptive, n, history=''):
    """a group of atoms far from everything else: no structure, no access outside the lists"""
    pos = [[10 + E.real('x', 0, 0.5), 10, 10]] + [[10 + 1.5 * (i & 1), 10 + 2 * (i >> 1 & 1), 10 + 2.5 * (i >> 2) + 0.125 * i] for i in range(1, n)]
    s = E.mod('core').System()
    s.box = [[40, 0, 0], [0, 40, 0], [0, 0, 40]]
    s.set_atoms(atoms_of(E, pos))
    res = run(E, s, None if adaptive else 4)
    E.same({q: int(v) for q, v in res.items()}, {'others': n, 'fcc': 0, 'hcp': 0, 'bcc': 0, 'ico': 0}, 'counts')
    for i, at in enumerate(s.atoms):
        E.same(at.structure, 0, 'structure of atom %d' % i)
    E.done()


def mixed(E, adaptive):
    """a crystal and a lone atom in a large box: the crystal is recognised all the same"""
    a = E.real('a', 3.9, 4.1)
    pos = [[E.const(30), E.const(30), E.const(30)]]
    cen = 0
    for c in itertools.product((-1, 0, 1), repeat=3):
        for p in BCC:
            pos.append([10 + a * E.const(p[x] + c[x]) for x in range(3)])
            if c == (0, 0, 0) and p == [0, 0, 0]:
                cen = len(pos) - 1
    s = E.mod('core').System()
    s.box = [[40, 0, 0], [0, 40, 0], [0, 0, 40]]
    s.set_atoms(atoms_of(E, pos))
    run(E, s, None if adaptive else a)
    got = s.atoms
    E.same(got[0].structure, 0, 'lone atom')
    E.same(got[cen].structure, 3, 'centre of the crystal')
    E.done()


HARNESSES = [
    H('perfect', perfect, [{'kind': 'fcc', 'k': 2, 'adaptive': True, 'twice': True}, {'kind': 'fcc', 'k': 2, 'adaptive': False, 'before': 'cutoff'}, {'kind': 'bcc', 'k': 4, 'adaptive': True, 'before': 'number'},
                           {'kind': 'bcc', 'k': 4, 'adaptive': False, 'twice': True}, {'kind': 'hcp', 'k': 2, 'adaptive': True}],
      [{'kind': c, 'k': k, 'adaptive': ad, 'before': b, 'twice': tw} for c, k in (('fcc', 2), ('fcc', 3), ('bcc', 4), ('hcp', 2)) for ad in (True, False) for b in ('', 'cutoff', 'number') for tw in (False, True) if (c, ad) != ('hcp', False)]),
    H('displaced', displaced, [{'kind': 'fcc', 'k': 2, 'adaptive': True, 'lo': 0.01, 'hi': 0.8, 'direction': [1, 0, 0], 'look': [0, 1]}, {'kind': 'fcc', 'k': 2, 'adaptive': False, 'lo': 0.01, 'hi': 0.8, 'direction': [1, 0, 0], 'look': [0, 2]},
                               {'kind': 'bcc', 'k': 4, 'adaptive': True, 'lo': 0.01, 'hi': 0.5, 'direction': [1, 0, 0], 'look': [0, 1]},
                               {'kind': 'bcc', 'k': 4, 'adaptive': True, 'lo': 0.88, 'hi': 0.91, 'direction': [1, 0, 0], 'look': [63]}],
      [{'kind': c, 'k': k, 'adaptive': ad, 'lo': 0.01, 'hi': 0.9, 'direction': d, 'look': [0, 1, 2, 3]} for c, k in (('fcc', 2), ('bcc', 4), ('hcp', 2)) for ad in (True, False) for d in ([1, 0, 0], [0, -1, 0], [0.75, 0.5, 0.25])] +
      [{'kind': 'bcc', 'k': 4, 'adaptive': ad, 'lo': 0.3, 'hi': 1, 'direction': d, 'look': [0, 5, 21]} for ad in (True, False) for d in ([1, 1, 1], [1, 1, 0])]),
    H('icosahedron', icosahedron, [{'adaptive': True}, {'adaptive': False}], [{'adaptive': True}, {'adaptive': False}]),
    H('few', few, [{'adaptive': True, 'n': 8}, {'adaptive': False, 'n': 8}], [{'adaptive': a, 'n': n} for a in (True, False) for n in (1, 2, 5, 8)]),
    H('mixed', mixed, [{'adaptive': True}], [{'adaptive': a} for a in (True, False)]),
]
