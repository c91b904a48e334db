"""C22: short range order."""
from engine.harness import H
from .common import system, small_system, ortho_box

PROPERTY = dict(
    title='Short range order parameters compare neighbor types with the composition',
    statement='For every atom of the reference type the short range order of a shell is 1 - n/(c m), where n of the m neighbors in the shell are of the '
              'other type and c is the concentration of that type in the system; the first shell holds the neighbors within the mean neighbor distance, '
              'the second the rest.  The pairwise value for any two types, whatever their numbers, is the same with the compared type, or '
              '(n/m-c)/(1-c) for equal types with the delta term, and the returned average is the mean over the atoms of the reference type, one value '
              'per shell.  Neighbor lists and types stay as they were.',
    quantifier=dict(over=['inputs', 'configurations'], text='all assignments of types, reference and compared types, neighbor distances and shells'),
    why_tests_cant='The tests look at one ordered compound with one reference type; other compositions, type numbers and environments are not tried.',
    anchors=dict(files=['src/pyscal/core.py'], mechanism=[dict(name='calculate_sro, calculate_pmsro', where='core.py')],
                 observe_at=['System.calculate_sro', 'System.calculate_pmsro', 'Atom.sro']))

BOUNDS = ('3 to 5 atoms with one symbolic position on a line and all assignments of 2 or 3 types; small periodic system of 8 atoms with symbolic types of '
          '2 of them')
OUTSIDE = ('atoms without neighbors or with an empty second shell, for which the value is undefined; more than two types in calculate_sro; neighbors '
           'within 1e-6 of the mean neighbor distance')
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']

LINE = [10, 11, 13.5, 15.25, 18]


def refused(f):
    try:
        f()
    except (RuntimeError, ValueError):
        return True
    return False


def shell_sets(E, dist, nb, shells):
    if shells == 1:
        return [nb]
    m = E.div(sum(dist), len(dist))
    out = [[], []]
    for d, j in zip(dist, nb):
        E.apart(d, m)
        out[0 if d < m else 1].append(j)
    return out


def expected(E, sets, types, comp, other, conc, delta):
    """comp: predicate of the types counted"""
    out = []
    for st in sets:
        n = sum(1 for j in st if comp(types[j]))
        if delta:
            out.append(E.div(E.frac(n, len(st)) - conc, 1 - conc))
        else:
            out.append(1 - E.div(E.const(n), len(st) * conc))
    return out


def prepare(E, names, n, moving):
    xs = [E.const(x) for x in LINE[:n]]
    if moving:
        xs[1] = E.real('x1', 10.25, 13.25)
    types = [names[E.choice('type%d' % i, range(len(names)))] for i in range(n)]
    s = system(E, ortho_box(60, 61, 62), [[x, 7, 8] for x in xs], types)
    s.find_neighbors(method='cutoff', cutoff=12)
    for i in range(n):
        E.same(sorted(s.get_atom(i).neighbors), [j for j in range(n) if j != i], 'neighbors of atom %d' % i)
    return s, xs, types


def verify(E, s, xs, types, ref, comp, conc, shells, average, delta, ret):
    n = len(xs)
    tot = [0] * shells
    count = 0
    for i in range(n):
        E.same(s.get_atom(i).type, types[i], 'type of atom %d' % i)
        if types[i] != ref:
            continue
        nb = [j for j in range(n) if j != i]
        sets = shell_sets(E, [E.abs(xs[j] - xs[i]) for j in nb], nb, shells)
        want = expected(E, sets, types, comp, None, conc, delta)
        got = list(s.get_atom(i).sro)
        E.same(len(got), shells, 'number of values of atom %d' % i)
        E.eqs(got, want, 'short range order of atom %d' % i)
        tot = [t + w for t, w in zip(tot, want)]
        count += 1
    if average:
        E.same(len(ret), shells, 'number of averages')
        E.eqs(list(ret), [E.div(t, count) for t in tot], 'average')
    else:
        E.check(ret is None, 'nothing is returned without average')


def binary(E, n, moving, ref, shells, average):
    s, xs, types = prepare(E, (1, 2), n, moving)
    n1, n2 = types.count(1), types.count(2)
    if not (n1 and n2):
        E.check(refused(lambda: s.calculate_sro(reference_type=ref, shells=shells, average=average)), 'a system of one type is refused')
        return E.done()
    ret = s.calculate_sro(reference_type=ref, shells=shells, average=average)
    conc = E.frac(n2 if ref == 1 else n1, n)
    verify(E, s, xs, types, ref, lambda t: t != ref, conc, shells, average, False, ret)
    E.done()


def pairwise(E, names, n, moving, ref, comp, shells, average, delta):
    s, xs, types = prepare(E, names, n, moving)
    kw = dict(reference_type=ref, compare_type=comp, shells=shells, average=average, delta=delta)
    if ref not in types or comp not in types:
        E.check(refused(lambda: s.calculate_pmsro(**kw)), 'types that do not occur are refused')
        return E.done()
    if ref == comp and delta and types.count(comp) == n:
        return E.done()
    ret = s.calculate_pmsro(**kw)
    conc = E.frac(types.count(comp), n)
    verify(E, s, xs, types, ref, lambda t: t == comp, conc, shells, average, delta and ref == comp, ret)
    E.done()


def copies(E, pmsro):
    """cubic cell of eight atoms, neighbors across the boundary"""
    pos = [[3 * i, 3 * j, 3 * k] for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    types = [E.choice('type%d' % i, (1, 2)) if i in (1, 6) else (1, 2, 2, 1, 2, 1, 1, 2)[i] for i in range(8)]
    s = small_system(E, ortho_box(6, 6, 6), pos, types)
    s.find_neighbors(method='cutoff', cutoff=4.5)
    before = [sorted(x.neighbors) for x in s.get_all_atoms()]
    E.same(len(before[0]), 18, 'number of neighbors')
    for ref in (1, 2):
        ret = s.calculate_pmsro(reference_type=ref, compare_type=3 - ref) if pmsro else s.calculate_sro(reference_type=ref)
        conc = E.frac(types.count(3 - ref), 8)
        tot = [0, 0]
        for i in range(8):
            if types[i] != ref:
                continue
            # of the bits of i, one (twice each) or two (four times each) differ
            n1 = sum(2 for b in (1, 2, 4) if types[i ^ b] != ref)
            n2 = sum(4 for b in (3, 5, 6) if types[i ^ b] != ref)
            want = [1 - E.div(E.const(n1), 6 * conc), 1 - E.div(E.const(n2), 12 * conc)]
            E.eqs(list(s.get_atom(i).sro), want, 'short range order of atom %d' % i)
            tot = [t + w for t, w in zip(tot, want)]
        E.eqs(list(ret), [E.div(t, types.count(ref)) for t in tot], 'average')
    E.same([sorted(x.neighbors) for x in s.get_all_atoms()], before, 'neighbors of all atoms after the calculation')
    E.done()


HARNESSES = [
    H('binary', binary, [{'n': n, 'moving': m, 'ref': r, 'shells': sh, 'average': a} for n, m, r, sh, a in
                         ((4, 1, 1, 2, True), (4, 0, 2, 1, True), (4, 0, 2, 2, False))],
      [{'n': n, 'moving': m, 'ref': r, 'shells': sh, 'average': a} for n in (4, 5) for m in (0, 1) for r in (1, 2) for sh in (1, 2)
       for a in (True, False)]),
    H('pairwise', pairwise, [{'names': nm, 'n': 4 if len(nm) == 2 else 3, 'moving': m, 'ref': r, 'comp': c, 'shells': sh, 'average': a, 'delta': d} for nm, m, r, c, sh, a, d in
                             (((1, 2, 3), 0, 3, 2, 2, True, True), ((2, 5), 1, 5, 2, 2, True, True), ((1, 3), 0, 1, 1, 2, True, True),
                              ((1, 2), 0, 2, 2, 1, True, True), ((4, 2), 0, 2, 2, 2, False, False), ((3, 1, 2), 0, 1, 3, 1, True, False))],
      [{'names': nm, 'n': 4, 'moving': m, 'ref': nm[0], 'comp': c, 'shells': sh, 'average': True, 'delta': d}
       for nm in ((1, 2, 3), (5, 2), (3, 1, 7)) for m in (0, 1) for c in nm[:2] for sh in (1, 2) for d in (True, False)]),
    H('copies', copies, [{'pmsro': False}, {'pmsro': True}]),
]
