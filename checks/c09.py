"""C09: clusters of atoms."""
from engine.harness import H
from .common import system, small_system, ortho_box
from .c04 import line

PROPERTY = dict(
    title='Clusters are the connected sets of neighboring atoms that satisfy the condition',
    statement='After cluster_atoms two atoms carry the same cluster index exactly if a chain of neighbors, all satisfying the condition and no farther apart than the '
              'cluster cutoff (by default that of the neighbor search), joins them, across periodic boundaries too; atoms that do not satisfy it belong to no cluster.  '
              'The size returned is that of the largest such set, exactly its atoms are marked as the largest cluster, and solid atoms with a non-solid '
              'neighbor are marked as surface, whatever was clustered before.  set_atom_cutoff makes the cutoff of each atom the given multiple of the mean distance '
              'to its neighbors.',
    quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all positions, conditions, cluster cutoffs, box sizes and earlier clusterings'),
    why_tests_cant='The tests look at the size of the largest cluster of one simulation snapshot and of perfect crystals, where all atoms form one cluster.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='find_clusters_recursive, harvest_cluster, largest_cluster, get_largest_cluster_atoms', where='system.cpp'),
                            dict(name='cluster_atoms, get_custom, _assign_condition', where='core.py')],
                 observe_at=['Atom.cluster', 'Atom.largest_cluster', 'Atom.surface', 'System.cluster_atoms', 'System.find_largestcluster']))

BOUNDS = ('4 to 6 atoms on a line with up to two symbolic coordinates, all assignments of the condition, cluster cutoffs fixed or symbolic in [1,5]; 3 atoms in a box so small that '
          'periodic copies serve as neighbors; conditions given as function, attribute or custom value')
OUTSIDE = 'rounding; neighbor relations that are not symmetric; which of several largest clusters of equal size is marked'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']


def connected(n, mark, link):
    comp = [-1] * n
    for i in range(n):
        if not mark[i] or comp[i] >= 0:
            continue
        comp[i] = i
        todo = [i]
        while todo:
            k = todo.pop()
            for j in range(n):
                if mark[j] and comp[j] < 0 and link[k][j]:
                    comp[j] = i
                    todo.append(j)
    return comp


def verify(E, s, n, mark, link, size, tag=''):
    comp = connected(n, mark, link)
    sizes = {c: comp.count(c) for c in comp if c >= 0}
    best = max(sizes.values()) if sizes else 0
    E.same(size, best, tag + 'size of the largest cluster')
    got = [s.get_atom(i).cluster for i in range(n)]
    for i in range(n):
        E.same(got[i] >= 1, bool(mark[i]), tag + 'atom %d is in a cluster' % i)
        for j in range(i):
            if mark[i] and mark[j]:
                E.same(got[i] == got[j], comp[i] == comp[j], tag + 'atoms %d and %d share a cluster' % (j, i))
    large = [i for i in range(n) if s.get_atom(i).largest_cluster]
    E.same(len(large), best, tag + 'number of atoms in the largest cluster')
    for i in large:
        E.check(mark[i] and comp[i] == comp[large[0]], tag + 'atom %d of the largest cluster' % i)
    for i in range(n):
        a = s.get_atom(i)
        if a.solid:
            E.same(bool(a.surface), any(not s.get_atom(j % n).solid for j in a.neighbors), tag + 'surface flag of atom %d' % i)


def apply(E, s, n, mark, how, cutoff):
    if how == 'function':
        for i in range(n):
            a = s.get_atom(i)
            a.type = 1 + mark[i]
            s.set_atom(a)
        return s.cluster_atoms(lambda a: a.type == 2, largest=True, cutoff=cutoff)
    for i in range(n):
        a = s.get_atom(i)
        if how == 'attribute':
            a.solid = mark[i]
        else:
            a.custom = {'mark': bool(mark[i])}
        s.set_atom(a)
    if how == 'nosize':
        E.check(s.cluster_atoms('mark', largest=False, cutoff=cutoff) is None, 'nothing is returned')
        return s.find_largestcluster()
    return s.cluster_atoms('solid' if how == 'attribute' else 'mark', cutoff=cutoff)


def chain(E, axis, n, free, how, cut=3.25, cluster=None, before=0):
    box, pos = line(E, axis, n, free)
    L = box[axis][axis]
    s = system(E, box, pos)
    if before:
        # an earlier clustering with another condition and cutoff
        s.find_neighbors(method='cutoff', cutoff=5)
        apply(E, s, n, [1] * n, how, 2)
    s.find_neighbors(method='cutoff', cutoff=cut)
    if before == 2:
        apply(E, s, n, [1] * n, how, 1)
    mark = [E.choice('mark%d' % i, (1, 0)) for i in range(n)]
    if cluster is None:
        cc, arg = cut, 0
    elif cluster == 'any':
        cc = arg = E.real('clustercutoff', 1, 5)
    else:
        cc = arg = cluster
    size = apply(E, s, n, mark, how, arg)
    link = [[False] * n for i in range(n)]
    for i in range(n):
        for j in range(i):
            if not (mark[i] and mark[j]):
                continue
            d = E.abs(pos[i][axis] - pos[j][axis])
            E.apart(d, L / 2)
            d = d if bool(d < L / 2) else L - d
            E.apart(d, cut)
            ok = bool(d < cut)
            if ok and cluster is not None:
                E.apart(d, cc)
                ok = bool(d < cc)
            link[i][j] = link[j][i] = ok
    verify(E, s, n, mark, link, size)
    E.done()


def images(E, how, axis=0, before=0):
    """small box: a chain of neighbors runs through the periodic copies"""
    e = [15, 16]
    e.insert(axis, 6)
    x = E.real('x', -0.75, 0.75)
    pos = []
    for c in (0.5, 2.25 + x, 4.75):
        q = [1, 2]
        q.insert(axis, c)
        pos.append(q)
    s = small_system(E, ortho_box(*e), pos)
    s.find_neighbors(method='cutoff', cutoff=2.125)
    mark = [E.choice('mark%d' % i, (1, 0)) for i in range(3)]
    if before:
        apply(E, s, 3, [1, 1, 1], how, 0)
    size = apply(E, s, 3, mark, how, 0)
    link = [[False] * 3 for i in range(3)]
    for i in range(3):
        for j in range(i):
            d = E.abs(pos[i][axis] - pos[j][axis])
            E.apart(d, 3)
            d = d if bool(d < 3) else 6 - d
            E.apart(d, 2.125)
            link[i][j] = link[j][i] = bool(d < 2.125)
    verify(E, s, 3, mark, link, size)
    E.done()


def refused(E):
    """a condition that is neither true nor false is refused"""
    box, pos = line(E, 0, 4, [])
    s = system(E, box, pos)
    s.find_neighbors(method='cutoff', cutoff=3)
    v = E.real('value', 2, 5)
    for c in (lambda a: v, 'no_such_key', lambda a: a.nothing):
        try:
            s.cluster_atoms(c)
            E.check(False, 'the condition is accepted')
        except RuntimeError:
            pass
    E.done()


def cutoffs(E, axis, n, free, cut):
    """cutoffs from the distances to the neighbors"""
    box, pos = line(E, axis, n, free)
    s = system(E, box, pos)
    s.find_neighbors(method='cutoff', cutoff=cut)
    E.assume(all(len(s.get_atom(i).neighbors) for i in range(n)))
    f = E.real('factor', 0.5, 2)
    old = [list(s.get_atom(i).neighbor_distance) for i in range(n)]
    s.set_atom_cutoff(factor=f)
    for i in range(n):
        a = s.get_atom(i)
        E.eq(a.cutoff * len(old[i]), f * sum(old[i]), 'cutoff of atom %d' % i, 1e-6)
        E.eqs(list(a.neighbor_distance), old[i], 'distances of atom %d' % i)
    E.done()


HARNESSES = [
    H('cutoffs', cutoffs, [{'axis': 0, 'n': 4, 'free': [[0, 0], [-1, 1]], 'cut': 4.25}], [{'axis': a, 'n': n, 'free': [[0, 0], [-1.5, 1.5]], 'cut': c} for a in range(3) for n in (4, 5) for c in (3.25, 4.25, 5.5)]),
    H('chain', chain, [{'axis': 0, 'n': 4, 'free': [[0, 0], [-1.5, 1.5]], 'how': 'function'}, {'axis': 1, 'n': 5, 'free': [], 'how': 'attribute', 'cluster': 'any'},
                       {'axis': 2, 'n': 4, 'free': [[0, 0], [0, 0], [-1.5, 3]], 'how': 'custom', 'cluster': 2.5, 'cut': 4},
                       {'axis': 0, 'n': 5, 'free': [], 'how': 'attribute', 'cut': 5.5, 'before': 1}, {'axis': 0, 'n': 4, 'free': [[0, 0], [-1, 1]], 'how': 'nosize', 'cut': 4, 'before': 2},
                       {'axis': 1, 'n': 6, 'free': [], 'how': 'attribute', 'cut': 4}],
      [{'axis': a, 'n': n, 'free': f, 'how': h, 'cluster': c, 'cut': k, 'before': b} for a in range(3) for n, f in ((4, [[-1.5, 1.5]]), (5, [[0, 0], [0, 0], [-1.5, 1.5]]), (6, []))
       for h in ('function', 'attribute', 'nosize') for c, k in ((None, 3.25), (2.5, 5.5), ('any', 5.5)) if not (f and c == 'any') for b in (0, 1, 2)]),
    H('images', images, [{'how': 'function'}, {'how': 'attribute', 'axis': 1, 'before': 1}], [{'how': h, 'axis': a, 'before': b} for h in ('function', 'attribute', 'custom') for a in range(3) for b in (0, 1)]),
    H('refused', refused, [{}]),
]
