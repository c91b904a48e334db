"""C04: fixed-number and adaptive-cutoff neighbors."""
from engine.harness import H
from .common import system, ortho_box
from .c01 import CELLS
from .c02 import image

PROPERTY = dict(
    title='Number and adaptive searches select the nearest atoms',
    statement="A search with method='number' gives every atom exactly nmax neighbors, and none of the atoms left out is closer than one selected; "
              'when an atom does not have nmax candidates the search raises instead of returning a short list. With an adaptive cutoff the neighbor '
              'list of an atom holds exactly the atoms (passing the type filter) closer than padding times the mean distance of its nlimit nearest '
              'atoms, for every threshold, box shape and arrangement, and the recorded cutoff is that distance.',
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all positions, box shapes, nmax, nlimit, padding and thresholds'),
    why_tests_cant='The tests look at the coordination of one atom of a perfect bcc crystal. Sorting, the guess radius and the cutoff interact '
                   'differently for every arrangement, for example with vacuum in the box.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='get_all_neighbors_bynumber, get_all_neighbors_adaptive, get_temp_neighbors_*, process_neighbor', where='system.cpp')],
                 observe_at=['Atom.neighbors', 'Atom.neighbor_distance', 'Atom.neighbor_vector', 'Atom.cutoff', 'RuntimeError of find_neighbors']))

BOUNDS = ('4 to 6 atoms in an orthogonal (8,9,10) or triclinic (2, one left handed) box, one of them with one symbolic coordinate (number), or on a line with one or two symbolic coordinates (adaptive); nmax 1 to 4, '
          'nlimit 1 to 3, padding symbolic in [1,1.6], threshold symbolic in [1,2]; both type filters with symbolic types; plain and cell-list candidates; '
          'repeated searches')
OUTSIDE = 'rounding; ties between distances; filters with the number method (not applied by it)'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'distances differ by more than 1e-4 where their order matters']

SPOTS = [[1, 1, 1], [3.1, 1.3, 1.2], [1.4, 3.9, 0.8], [7, 8.2, 9.1], [2.2, 1.9, 4.6], [5.3, 5.1, 5.9]]
BOX = ortho_box(8, 9, 10)


def table(E, box, pos, dist=None):
    n = len(pos)
    t = {}
    for i in range(n):
        for j in range(i + 1, n):
            v = image(E, box, pos[i], pos[j]) if dist is None else dist(i, j)
            t[i, j] = (E.dot(v, v), v)
            t[j, i] = (t[i, j][0], [-x for x in v])
    return t


def separated(E, t, n):
    """no two neighbors of an atom at the same distance"""
    for i in range(n):
        o = [j for j in range(n) if j != i]
        for a in range(len(o)):
            for b in range(a):
                E.apart(t[i, o[a]][0], t[i, o[b]][0], 1e-4)


def order(t, i, n):
    """the other atoms sorted by distance from i (a fork per undecided comparison)"""
    out = []
    for j in range(n):
        if j == i:
            continue
        k = len(out)
        while k > 0 and bool(t[i, j][0] < t[i, out[k - 1]][0]):
            k -= 1
        out.insert(k, j)
    return out


def data(E, s, t, i, tag=''):
    a = s.get_atom(i)
    ns = list(a.neighbors)
    d, v, w = a.neighbor_distance, a.neighbor_vector, a.neighbor_weights
    E.same([len(d), len(v), len(w), a.coordination], [len(ns)] * 4, tag + 'number of entries of atom %d' % i)
    for k, j in enumerate(ns):
        E.check(j != i, tag + 'not its own neighbor')
        E.eq(d[k] * d[k], t[i, j][0], tag + 'squared distance of neighbor %d of atom %d' % (k, i), 1e-6)
        E.eqs(v[k], t[i, j][1], tag + 'vector of neighbor %d of atom %d' % (k, i), 1e-6)
        E.eq(w[k], 1, tag + 'weight')
    return ns, d, a


def moved(E, n, which, axis, lo, hi):
    pos = [list(p) for p in SPOTS[:n]]
    pos[which][axis] = E.real('x', lo, hi)
    return pos


def number(E, nmax, which, axis, cells=0, cell=None, n=5):
    if cell is None:
        box = BOX
        pos = moved(E, n, which, axis, 0, box[axis][axis] - 0.01)
        t = table(E, box, pos)
    else:
        box = [list(r) for r in CELLS[cell]] if cell != 'left' else [[0, 6, 1], [5, 1, 0], [0, 1, 7]]
        fr = [[0.1, 0.1, 0.1], [0.41, 0.22, 0.15], [0.2, 0.69, 0.3], [0.83, 0.92, 0.95], [0.6, 0.33, 0.52]][:n]
        fr[which][axis] = E.real('f', 0, 0.999)
        pos = [[sum(x[i] * box[i][k] for i in range(3)) for k in range(3)] for x in fr]

        def dist(i, j):
            d = [fr[j][k] - fr[i][k] for k in range(3)]
            d = [x - 1 if x > 0.5 else x + 1 if x < -0.5 else x for x in d]
            return [sum(d[i] * box[i][k] for i in range(3)) for k in range(3)]
        for i in range(n):
            if i != which:
                E.apart(fr[i][axis] - fr[which][axis], 0.5, 1e-3)
                E.apart(fr[i][axis] - fr[which][axis], -0.5, 1e-3)
        t = table(E, box, pos, dist)
    separated(E, t, n)
    s = system(E, box, pos)
    if cells:
        s.usecells = 1
        s.reset_neighbors()
        ok = s.get_all_neighbors_bynumber(4, nmax, 1)
        E.check(ok == 1, 'search succeeds')
    else:
        s.find_neighbors(method='number', nmax=nmax, threshold=4)
    for i in range(n):
        ns, d, a = data(E, s, t, i)
        E.same(sorted(ns), sorted(order(t, i, n)[:nmax]), 'nearest %d of atom %d' % (nmax, i))
    E.done()


def toofew(E):
    """isolated atoms: the search must not return a short list"""
    pos = [[1, 1, 1], [2, 1.1, 1], [1.2, 2, 1.1], [E.real('x', 1, 4.9), 5, 5]]
    box = ortho_box(10, 10, 10)
    t = table(E, box, pos)
    separated(E, t, 4)
    thr = E.real('threshold', 1, 3)
    s = system(E, box, pos)
    try:
        s.find_neighbors(method='number', nmax=2, threshold=thr)
    except RuntimeError:
        E.done()
        return
    for i in range(4):
        ns, d, a = data(E, s, t, i)
        E.same(sorted(ns), sorted(order(t, i, 4)[:2]), 'nearest 2 of atom %d' % i)
    E.done()


def line(E, axis, n, free, other=(0.5, 1.0)):
    """atoms on a line along one direction (their distances are linear in the coordinates); box 20 to 24 long"""
    long, w = {4: (24, (6, 6)), 5: (20, (6, 9)), 6: (24, (6, 9))}[n]        # (volume/n)^(1/3) = 6
    e = list(w)
    e.insert(axis, long)
    box = ortho_box(*e)
    c = [E.const(x) for x in (1, 2.9, 5.2, 9.1, 14.3, 17.9)][:n]
    for k, (lo, hi) in enumerate(free):
        if lo < hi:
            c[k] = c[k] + E.real('x%d' % k, lo, hi)
    pos = []
    for x in c:
        q = [3, 4, 2]
        q[axis] = x
        pos.append(q)
    return box, pos


def adaptive(E, nlimit, axis, free, filt=None, cells=0, thr=2, n=5, word='adaptive', rep=0, pad=None):
    box, pos = line(E, axis, n, free)
    t = table(E, box, pos)
    r = {k: E.sqrt(v[0]) for k, v in t.items()}
    lt = {k: (v,) for k, v in r.items()}
    separated(E, lt, n)
    pad = E.real('padding', 1.05, 1.6) if pad is None else pad      # a product of two symbols when positions are free too
    types = [E.int('t%d' % i, 1, 2) if i < (2 if free else 5) else 1 + i % 2 for i in range(n)] if filt else None
    s = system(E, box, pos, types=types)
    near, cut = [], []
    for i in range(n):
        near.append(order(lt, i, n))
        c = sum(r[i, j] for j in near[i][:nlimit]) * pad / nlimit
        cut.append(c)
        for j in range(n):
            if j != i:
                E.apart(r[i, j], c, 1e-4)
    if rep:
        s.find_neighbors(method='cutoff', cutoff='adaptive', nlimit=1, padding=1.5, threshold=4)
        s.find_neighbors(method='number', nmax=3, threshold=4)
    if cells:
        s.usecells = 1
        s.reset_neighbors()
        ok = s.get_all_neighbors_adaptive(thr, nlimit, pad)
        E.check(ok == 1, 'search succeeds')
    else:
        try:
            s.find_neighbors(method='cutoff', cutoff=word, nlimit=nlimit, padding=pad, threshold=thr, filter=filt)
        except RuntimeError:
            # the candidate radius threshold*(V/N)^(1/3) held less than nlimit atoms for some atom
            g = thr * E.cbrt(box[0][0] * box[1][1] * box[2][2] / n)
            E.check(E.Or(*[r[i, near[i][nlimit - 1]] >= g - 1e-6 for i in range(n)]), 'an atom has too few candidates')
            E.done()
            return
    for i in range(n):
        ns, d, a = data(E, s, t, i)
        exp = [j for j in range(n) if j != i and bool(r[i, j] < cut[i]) and (not filt or bool(types[i] == types[j]) == (filt == 'type'))]
        E.same(sorted(ns), exp, 'neighbors of atom %d' % i)
        if exp:
            E.eq(a.cutoff, cut[i], 'cutoff of atom %d' % i, 1e-6)
    E.done()


def vacuum(E):
    """a cluster and a remote atom: the adaptive cutoff exceeds the guess radius"""
    c = [1, 3, 5.125, E.real('x', 10.5, 11.2)]
    pos = [[x, 1, 1] for x in c]
    box = ortho_box(32, 4, 4)
    n = 4
    t = table(E, box, pos)
    separated(E, t, n)
    s = system(E, box, pos)
    r = {k: E.sqrt(v[0]) for k, v in t.items()}
    for i in range(n):
        c = r[i, order(t, i, n)[0]] * 1.6
        for j in range(n):
            if j != i:
                E.apart(r[i, j], c, 1e-4)
    try:
        s.find_neighbors(method='cutoff', cutoff='adaptive', nlimit=1, padding=1.6, threshold=1.25)
    except RuntimeError:
        E.check(False, 'the search fails although every atom has a candidate')
    for i in range(n):
        ns, d, a = data(E, s, t, i)
        c = r[i, order(t, i, n)[0]] * 1.6
        E.same(sorted(ns), [j for j in range(n) if j != i and bool(r[i, j] < c)], 'neighbors of atom %d' % i)
    E.done()


HARNESSES = [
    H('number', number, [{'nmax': 1, 'which': 0, 'axis': 0}, {'nmax': 2, 'which': 1, 'axis': 1}, {'nmax': 3, 'which': 2, 'axis': 2},
                         {'nmax': 2, 'which': 1, 'axis': 0, 'cells': 1, 'n': 4}, {'nmax': 2, 'which': 1, 'axis': 0, 'cell': 'hex', 'n': 4},
                         {'nmax': 1, 'which': 0, 'axis': 2, 'cell': 'left', 'n': 3}],
      [{'nmax': k, 'which': w, 'axis': a} for k in (1, 2, 3, 4) for w in (0, 1, 2) for a in range(3)] +
      [{'nmax': 2, 'which': 1, 'axis': a, 'cells': 1} for a in range(3)] +
      [{'nmax': 2, 'which': 1, 'axis': a, 'cell': c} for a in range(3) for c in ('full', 'left', 'hex', 'upper')]),
    H('too_few', toofew, [{}]),
    H('adaptive', adaptive, [{'nlimit': 1, 'axis': 0, 'free': [[-0.9, 0.9]], 'pad': 1.2}, {'nlimit': 2, 'axis': 1, 'free': [[0, 0], [-0.9, 0.9]], 'pad': 1.2},
                             {'nlimit': 2, 'axis': 1, 'free': []}, {'nlimit': 1, 'axis': 2, 'free': [], 'n': 4},
                             {'nlimit': 3, 'axis': 2, 'free': [[-0.9, 0.9], [-0.5, 0.5]], 'thr': 2, 'pad': 1.3},
                             {'nlimit': 2, 'axis': 0, 'free': [[-0.9, 0.9]], 'thr': 1, 'word': 0, 'pad': 1.25},
                             {'nlimit': 2, 'axis': 0, 'free': [[-0.5, 0.5]], 'cells': 1, 'thr': 1.2, 'pad': 1.5},
                             {'nlimit': 2, 'axis': 1, 'free': [[-0.5, 0.5]], 'n': 4, 'filt': 'type', 'pad': 1.5},
                             {'nlimit': 1, 'axis': 2, 'free': [[-0.5, 0.5]], 'n': 4, 'filt': 'type_r', 'pad': 1.4},
                             {'nlimit': 1, 'axis': 0, 'free': [], 'n': 6, 'filt': 'type', 'pad': 2.75}, {'nlimit': 1, 'axis': 1, 'free': [], 'n': 6, 'filt': 'type_r', 'pad': 2.75},
                             {'nlimit': 2, 'axis': 0, 'free': [[-0.9, 0.9]], 'rep': 1, 'pad': 1.3}],
      [{'nlimit': k, 'axis': a, 'free': f, 'filt': fl, 'n': n, 'thr': h, 'pad': p}
       for k in (1, 2, 3) for a in range(3) for f, p in (([], None), ([], 2.75), ([[-1.5, 1.5]], 1.2), ([[0, 0], [-1.5, 1.5]], 1.3), ([[0, 0], [-.5, .5], [-.5, .5]], 1.5))
       for fl in (None, 'type', 'type_r') for n, h in ((4, 1.5), (6, 2))]),
    H('vacuum', vacuum, [{}]),
]
