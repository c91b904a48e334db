"""C05: solid-angle nearest neighbors."""
from engine.harness import H
from .common import system, ortho_box
from .c04 import table, separated, order, data, BOX, SPOTS, moved

PROPERTY = dict(
    title='SANN neighbor lists satisfy the solid-angle condition',
    statement="A search with cutoff='sann' gives each atom its m nearest atoms for the smallest m >= 3 such that the sum of their distances divided "
              'by m-2 is below the distance of the (m+1)-th nearest atom, and records that quotient as the cutoff of the atom; when the candidates '
              'are exhausted first the search widens its radius or raises, and never returns an unconverged list.',
    quantifier=dict(over=['inputs', 'configurations'], text='all arrangements of atoms and thresholds'),
    why_tests_cant='The only test looks at the coordination (14) of one atom of a perfect bcc crystal, which two different lists satisfy.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='get_all_neighbors_sann', where='system.cpp'), dict(name='find_neighbors', where='core.py')],
                 observe_at=['Atom.neighbors', 'Atom.cutoff', 'Atom.neighbor_distance', 'RuntimeError of find_neighbors']))

BOUNDS = ('6 to 8 atoms on a line in an orthogonal box, one or two coordinates symbolic; threshold 1 to 3; plain and cell-list candidates')
OUTSIDE = 'rounding; ties between distances or with the cutoff'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']


def solve(E, r, i, o):
    """(m, cutoff) by the definition; None when the candidates are exhausted"""
    m = 3
    while True:
        if m > len(o):
            return None
        c = sum(r[i, j] for j in o[:m]) / (m - 2)
        if m == len(o):
            return None
        E.apart(c, r[i, o[m]], 1e-4)
        if bool(c < r[i, o[m]]):
            return m, c
        m += 1


def skipping(E, r, i, o):
    """the list of the current code: the entry with (0-based) number 3 is left out (known finding)"""
    lst = o[:3]
    m = 3
    sm = sum(r[i, j] for j in lst)
    c = sm / (m - 2)
    while m < len(o) and not bool(c < r[i, o[m]]):
        m += 1
        if m == len(o):
            return None
        lst.append(o[m])
        sm = sm + r[i, o[m]]
        c = sm / (m - 2)
        E.apart(c, r[i, o[m]], 1e-4)
    return None if m == len(o) else (lst, c)


LINES = {
    'dense': [3, 4, 5.1, 6.3, 7.4, 8.2, 9.5],
    'sparse': [3, 4.1, 5.0, 11, 12.3, 13.15, 14.6],
    'pairs': [3, 3.8, 6.5, 7.25, 10.6, 11.35, 16.2],
}


def sann(E, kind, axis, n, free, cells=0, thr=3):
    """atoms on a line (their distances are linear in the coordinates)"""
    long, w = {6: (24, (6, 9)), 7: (24, (7, 9))}[n]        # (volume/n)^(1/3) = 6
    e = list(w)
    e.insert(axis, long)
    box = ortho_box(*e)
    c = [E.const(x) for x in LINES[kind][:n]]
    for k, (lo, hi) in free:
        c[k] = c[k] + E.real('x%d' % k, lo, hi)
    pos = []
    for x in c:
        q = [3, 4, 5]
        q[axis] = x
        pos.append(q)
    t = table(E, box, pos)
    r = {k: E.sqrt(v[0]) for k, v in t.items()}
    lt = {k: (v,) for k, v in r.items()}
    separated(E, lt, n)
    s = system(E, box, pos)
    near = [order(lt, i, n) for i in range(n)]
    want = [solve(E, r, i, near[i]) for i in range(n)]
    alt = [skipping(E, r, i, near[i]) for i in range(n)]
    if cells:
        s.usecells = 1
        s.reset_neighbors()
        ok = s.get_all_neighbors_sann(thr)
    else:
        try:
            s.find_neighbors(method='cutoff', cutoff='sann', threshold=thr)
            ok = 1
        except RuntimeError:
            ok = 0
    if not ok:
        E.check(any(w is None for w in want) or any(w is None for w in alt), 'a search without a converged cutoff for some atom')
        E.check(any(w is None for w in want), 'search failed with the skipped entry, but a solution exists (SANN skips the fourth nearest atom)')
        E.done()
        return
    late = []
    for i in range(n):
        if want[i] is None:
            E.check(alt[i] is not None, 'unconverged atom %d' % i)
            late.append('unconverged atom %d accepted (SANN skips the fourth nearest atom)' % i)
            continue
        ns, d, a = data(E, s, t, i)
        m, c = want[i]
        o = near[i]
        good = list(ns) == o[:m]
        if good:
            E.eq(a.cutoff, c, 'cutoff of atom %d' % i, 1e-6)
            continue
        E.check(alt[i] is not None and list(ns) == alt[i][0], 'neighbors of atom %d' % i)
        E.eq(a.cutoff, alt[i][1], 'cutoff of atom %d' % i, 1e-6)
        late.append('neighbors of atom %d: entry 3 is missing (SANN skips the fourth nearest atom)' % i)
    for x in late:
        E.check(False, x)
    E.done()


def three(E, axis):
    """atoms with exactly three neighbors: tight groups of four, far apart (the search needs no fourth neighbor)"""
    e = [8, 8]
    e.insert(axis, 64)            # (volume/8)^(1/3) = 8
    box = ortho_box(*e)
    c = [E.const(x) for x in (3, 4, 5.2, 6.1, 23, 24.1, 25, 26.2)]
    c[1] = c[1] + E.real('x', -0.5, 0.5)
    c[6] = c[6] + E.real('y', -0.5, 0.5)
    pos = []
    for x in c:
        q = [3, 4, 5]
        q[axis] = x
        pos.append(q)
    n = 8
    t = table(E, box, pos)
    s = system(E, box, pos)
    for i in range(8):
        o = [j for j in range(n) if j != i and j // 4 == i // 4]
        for a in range(3):
            for b in range(a):
                E.apart(E.sqrt(t[i, o[a]][0]), E.sqrt(t[i, o[b]][0]), 1e-4)
    s.find_neighbors(method='cutoff', cutoff='sann', threshold=2.5)
    for i in range(8):
        ns, d, a = data(E, s, t, i)
        o = [j for j in range(n) if j != i and j // 4 == i // 4]
        E.same(sorted(ns), o, 'neighbors of atom %d' % i)
        E.eq(a.cutoff, sum(E.sqrt(t[i, j][0]) for j in o), 'cutoff of atom %d' % i, 1e-6)
    E.done()


def insufficient(E):
    """three atoms never have three neighbors: the search has to raise"""
    x = E.real('x', 1, 5)
    s = system(E, BOX, [[1, 1, 1], [x, 2, 2], [3, 4, 5]])
    try:
        s.find_neighbors(method='cutoff', cutoff='sann', threshold=2)
        done = True
    except RuntimeError:
        done = False
    E.check(not done, 'search with two candidates is refused')
    E.done()


HARNESSES = [
    H('sann', sann, [{'kind': 'dense', 'axis': 0, 'n': 7, 'free': [[1, [-0.8, 0.8]]]}, {'kind': 'dense', 'axis': 1, 'n': 6, 'free': [[0, [-0.8, 0.8]]], 'cells': 1},
                     {'kind': 'sparse', 'axis': 2, 'n': 7, 'free': [[1, [-0.8, 0.8]]]}, {'kind': 'pairs', 'axis': 0, 'n': 6, 'free': [[2, [-0.8, 0.8]]]}],
      [{'kind': k, 'axis': a, 'n': n, 'free': f, 'cells': c} for k in LINES for a in range(3) for n in (6, 7)
       for f in ([[1, [-0.8, 0.8]]], [[0, [-0.8, 0.8]], [2, [-0.3, 0.3]]]) for c in (0, 1)]),
    H('three', three, [{'axis': i} for i in range(3)]),
    H('insufficient', insufficient, [{}]),
]
