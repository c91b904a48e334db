"""C30: results do not depend on what was calculated before."""
from engine.harness import H
from .common import system, small_system, ortho_box

PROPERTY = dict(
    title='Results depend on the atoms and the call, not on what was calculated before',
    statement='For every system, finding neighbors and then calculating a quantity gives for every atom the same values as in a new system of the same atoms, whatever '
              'neighbor searches and analyses, with whatever parameters, were done before in the same system, and doing the same twice changes nothing.  Analyses leave '
              'positions, ids, types and the box as they were.',
    quantifier=dict(over=['histories', 'inputs'], text='all sizes of the grid of atoms, and all pairs (thorough: triples) of earlier calculations and a later one'),
    why_tests_cant='Tests calculate one quantity in a new system; left over neighbors, weights, conditions, masks or cutoffs need a second calculation to show.',
    anchors=dict(files=['src/pyscal/core.py', 'src/pyscal/system.cpp', 'src/pyscal/atom.cpp'],
                 mechanism=[dict(name='reset_neighbors, find_neighbors', where='core.py'), dict(name='reset_all_neighbors and the state kept in System and Atom', where='system.cpp')],
                 observe_at=['System.find_neighbors', 'System.calculate_q', 'System.find_solids', 'System.cluster_atoms', 'System.calculate_cna', 'System.calculate_entropy',
                             'System.calculate_sro', 'System.calculate_rdf', 'Atom.neighbors']))

BOUNDS = ('11 atoms of two types on a grid of symbolic size, or 3 with periodic copies; 1 earlier calculation (thorough: 2) and one later, of 16 and more')
OUTSIDE = ('Voronoi neighbors (C18); conditions of calculate_q, which are documented to stay until they are cleared; two calculations without a new search for neighbors, '
           'which use the neighbors found before')
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']

# neighbors within the cutoff used for q values lie along the axes, so that their angles are known exactly
GRID = [(i, j, 0) for i in range(3) for j in range(3)] + [(1, 1, 1), (0, 2, 1)]
SPACING = [2, 2.125, 2.25]
TYPES = [1, 2, 1, 1, 2, 1, 2, 1, 2, 1, 2]
BOX = [12, 11, 10]


LINE = [(x, 0, 0) for x in (0, 1, 2, 3.25, 4.5)]


def build(E, x, small, line=False):
    grid = [(0, 0, 0), (1, 0, 0), (0, 0, 1)] if small else LINE if line else GRID
    pos = [[E.const(d) * g * x + 1 for g, d in zip(p, SPACING)] for p in grid]
    if line:
        return system(E, ortho_box(20, 20, 20), pos, TYPES[:len(pos)]), pos
    b = [4.25, 2.375, 4.75] if small else BOX
    s = (small_system if small else system)(E, ortho_box(*b), pos, TYPES[:len(pos)])
    return s, pos


def neighbors(s, n):
    return [v for i in range(n) for v in (sorted(s.get_atom(i).neighbors), s.get_atom(i).coordination, s.get_atom(i).neighbor_weights)]


def cutoff(s, n, c=2.5, **k):
    s.find_neighbors(method='cutoff', cutoff=c, **k)


def per_atom(s, n, f):
    return [f(s.get_atom(i)) for i in range(n)]


# what is calculated; the names of those that need no copies
def op_cutoff(E, s, n):
    cutoff(s, n)
    return neighbors(s, n)


def op_typed(E, s, n):
    cutoff(s, n, 3.5, filter='type')
    return neighbors(s, n)


def op_cells(E, s, n):
    cutoff(s, n, 3.25, cells=True)
    return neighbors(s, n)


def op_number(E, s, n):
    s.find_neighbors(method='number', nmax=4)
    return neighbors(s, n)


def op_sann(E, s, n):
    try:
        s.find_neighbors(method='cutoff', cutoff='sann', threshold=4)
    except RuntimeError:
        return []
    return neighbors(s, n)


def op_adaptive(E, s, n):
    try:
        s.find_neighbors(method='cutoff', cutoff=0, padding=1.5, nlimit=3)
    except RuntimeError:
        return []
    return neighbors(s, n)


def op_q(E, s, n):
    cutoff(s, n)
    s.calculate_q([2, 4], averaged=True, clear_condition=True)
    return per_atom(s, n, lambda a: [a.get_q(2), a.get_q(4), a.get_q(2, averaged=True), a.get_q(4, averaged=True)])


def op_other_q(E, s, n):
    cutoff(s, n, 2.25)
    s.calculate_q([2, 3], averaged=True, condition=lambda a: a.type == 1)
    return None


def op_solids(E, s, n):
    cutoff(s, n)
    s._assign_condition([0] * n)
    v = s.find_solids(bonds=1, threshold=0.25, avgthreshold=0.25, q=4, cluster=True)
    return [v] + per_atom(s, n, lambda a: [a.solid, a.surface, a.largest_cluster, a.cluster])


def op_fraction(E, s, n, strict=True):
    cutoff(s, n)
    v = s.find_solids(bonds=0.5 if strict else 0.125, threshold=0.75 if strict else 0.0625, avgthreshold=0.875 if strict else 0.0625, q=4, cluster=strict)
    return [v] + per_atom(s, n, lambda a: [a.solid, a.surface, a.largest_cluster, a.cluster])


def op_all_solid(E, s, n):
    # every bond counts, all are in one cluster
    op_fraction(E, s, n, strict=False)
    s.cluster_atoms('solid', largest=True)
    return None


def op_candidates(E, s, n):
    # candidates of the search and conditions remain
    s.find_neighbors(method='number', nmax=4)
    s._assign_condition([1] * n)
    return None


def op_clusters(E, s, n):
    cutoff(s, n, 2.75)
    v = s.cluster_atoms(lambda a: a.type == 1, largest=True)
    return [v] + per_atom(s, n, lambda a: [a.cluster, a.largest_cluster])


def op_cna(E, s, n):
    v = s.calculate_cna(lattice_constant=3.25)
    return [sorted((k, int(c)) for k, c in v.items())] + per_atom(s, n, lambda a: [a.structure])


def op_centro(E, s, n):
    v = s.calculate_centrosymmetry(nmax=2)
    return [list(v)]


def op_disorder(E, s, n):
    cutoff(s, n)
    s._assign_condition([0] * n)
    s.calculate_q([4])
    s.calculate_disorder(averaged=True, q=4)
    return per_atom(s, n, lambda a: [a.disorder, a.avg_disorder])


def op_entropy(E, s, n):
    cutoff(s, n, 2.5)
    s.calculate_entropy(2.5, sigma=0.5, rstart=0.5, h=1.0, averaged=True)
    return per_atom(s, n, lambda a: [a.entropy, a.avg_entropy])


def op_sro(E, s, n):
    cutoff(s, n, 3.75)
    return [list(s.calculate_sro(reference_type=1, shells=1))] + per_atom(s, n, lambda a: list(a.sro)[:1] if a.type == 1 else [])


def op_angular(E, s, n):
    cutoff(s, n, 3.0)
    s.calculate_angularcriteria()
    s.calculate_chiparams()
    return per_atom(s, n, lambda a: [a.angular, list(a.chiparams)])


def op_rdf(E, s, n):
    h, r = s.calculate_rdf(histobins=4, histomin=1.0, histomax=4.0)
    return [list(h), list(r)]


def op_remap(E, s, n):
    s.get_concentration()
    s.get_distance(s.get_atom(0), s.get_atom(n - 1))
    s.reset_neighbors()
    return None


def op_masks(E, s, n):
    for i in range(n):
        a = s.get_atom(i)
        a.mask = i % 2
        a.condition = 1 - i % 2
        s.set_atom(a)
    cutoff(s, n, 3.0)
    for i in range(n):
        a = s.get_atom(i)
        a.mask = 0
        a.condition = 0
        s.set_atom(a)
    return None


OPS = dict(cutoff=op_cutoff, typed=op_typed, cells=op_cells, number=op_number, sann=op_sann, adaptive=op_adaptive, q=op_q, otherq=op_other_q, solids=op_solids, fraction=op_fraction, allsolid=op_all_solid, candidates=op_candidates, clusters=op_clusters,
           cna=op_cna, centro=op_centro, disorder=op_disorder, entropy=op_entropy, sro=op_sro, angular=op_angular, rdf=op_rdf, remap=op_remap, masks=op_masks)
LATER = ['cutoff', 'typed', 'cells', 'number', 'sann', 'adaptive', 'q', 'solids', 'fraction', 'clusters', 'cna', 'centro', 'disorder', 'entropy', 'sro', 'angular', 'rdf']
EARLIER = LATER + ['allsolid', 'candidates', 'otherq', 'remap', 'masks']


def same(E, a, b, what):
    if isinstance(a, (list, tuple)):
        E.check(isinstance(b, (list, tuple)) and len(a) == len(b), what + ': number of values')
        for i, (x, y) in enumerate(zip(a, b)):
            same(E, x, y, what)
    elif isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        E.check(a == b, '%s: %s instead of %s' % (what, a, b))
    else:
        E.eq(a, b, what)


def plain(v):
    if isinstance(v, (str, bytes, dict)) or not hasattr(v, '__len__'):
        return v
    return [plain(x) for x in v]


def history(E, later, steps=1, small=False, line=False, earlier=EARLIER):
    x = E.real('x', 0.984375, 1.015625)
    new, pos = build(E, x, small, line)
    n = len(pos)
    want = plain(OPS[later](E, new, n))
    s, _ = build(E, x, small, line)
    names = []
    if not small:
        # gives small systems their periodic copies, which those made without have not
        earlier = [e for e in earlier if e != 'sro']
    for k in range(steps):
        names.append(E.choice('earlier%d' % k, earlier))
        OPS[names[-1]](E, s, n)
    got = plain(OPS[later](E, s, n))
    same(E, got, want, '%s after %s' % (later, ' and '.join(names)))
    E.check(s.natoms == n, 'number of atoms')
    for i in range(n):
        a = s.get_atom(i)
        E.check(a.id == i + 1 and a.type == TYPES[i], 'id or type of atom %d' % i)
        E.eqs(a.pos, pos[i], 'position of atom %d' % i)
    E.done()


ON_LINE = ['number', 'sann', 'adaptive', 'cna', 'centro']
SMALL = [x for x in LATER if x not in ('cells', 'sro') + tuple(ON_LINE)]
HARNESSES = [
    H('history', history, [dict(later=l, line=l in ON_LINE) for l in LATER] + [dict(later=l, small=True, earlier=['cutoff', 'clusters', 'remap', 'typed']) for l in ('cutoff', 'q')],
      [dict(later=l, line=l in ON_LINE, steps=2) for l in LATER] + [dict(later=l, small=True) for l in SMALL]),
]
