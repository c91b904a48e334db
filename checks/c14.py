"""C14: diamond structures."""
import random
from functools import cmp_to_key
from engine.harness import H
from .common import atoms_of
from .c13 import crystal, vec2, inverse, signatures

PROPERTY = dict(
    title='Diamond structures and their neighborhoods are identified by their definition',
    statement='identify_diamond marks an atom cubic (5) or hexagonal (8) diamond if the neighbors of its four nearest atoms show an fcc or hcp signature, 6 or 9 if one of its four nearest is such an atom, '
              '7 or 10 if one of the neighbors of those is, and 0 otherwise, and counts them in the dictionary returned.  find_diamond_neighbors leaves exactly the neighbors of the four nearest atoms. '
              'Both give the same whatever was calculated before, for crystals of any size and distortions that keep the four nearest.',
    quantifier=dict(over=['inputs', 'histories'], text='all positions and earlier calculations'),
    why_tests_cant='One perfect cubic diamond crystal is tried; hexagonal diamond, surfaces and defects are not.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='get_diamond_neighbors, identify_diamond_structure, identify_cndia', where='system.cpp'),
                            dict(name='System.identify_diamond, find_diamond_neighbors', where='core.py')],
                 observe_at=['System.identify_diamond', 'System.find_diamond_neighbors', 'Atom.structure', 'Atom.neighbors']))

BOUNDS = ('cubic diamond crystals of 64 atoms and hexagonal ones of 128, with symbolic scale, with an atom removed or displaced by a symbolic amount along a line, also in crystals where three more atoms are displaced by fixed amounts')
OUTSIDE = 'rounding; atoms exactly at cutoffs; atoms between cubic and hexagonal regions'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']
BUDGET_QUICK = 400


def diamond(E, kind, a):
    if kind == 'cubic':
        box, pos = crystal(E, 'fcc', 2, a)
        return box, pos + [[p[0] + a * E.frac(1, 4), p[1] + a * E.frac(1, 4), p[2] + a * E.frac(1, 4)] for p in pos]
    # hexagonal: two hcp lattices, one shifted along the axis
    box, pos = crystal(E, 'hcp', 2, a)
    h = a * E.frac(612372436, 10 ** 9)          # three eighths of the height of the cell
    return box, pos + [[p[0], p[1], p[2] + h] for p in pos]


def nearest4(E, box, pos):
    out = []
    for i in range(len(pos)):
        near = [(vec2(E, box, pos[i], q), j) for j, q in enumerate(pos) if j != i]
        # only those that may be among the nearest
        near = sorted(near, key=lambda x: E.number(x[0]))[:9]
        near = sorted(near, key=cmp_to_key(lambda u, v: -1 if bool(u[0] < v[0]) else 1))
        E.apart(near[3][0], near[4][0], 1e-3)
        out.append([j for q, j in near[:4]])
    return out


def definition(E, box, pos):
    near = nearest4(E, box, pos)
    second = [[k for j in near[i] for k in near[j] if k != i] for i in range(len(pos))]
    core = []
    for i, nb in enumerate(second):
        st = 0
        if len(nb) >= 12 and len(set(nb)) == len(nb):
            ds = [E.sqrt(vec2(E, box, pos[i], pos[j])) for j in nb[:12]]
            cut = sum(ds) * E.frac(1207, 12000)
            sig = signatures(E, box, pos, nb, cut * cut)
            f, h = sig.count((4, 2, 1, 1)), sig.count((4, 2, 2, 0))
            st = 5 if f == 12 else 8 if (f, h) == (6, 6) else 0
        core.append(st)
    one = [st or (6 if any(core[j] == 5 for j in near[i]) else 9 if any(core[j] == 8 for j in near[i]) else 0) for i, st in enumerate(core)]
    return near, second, [st or (7 if any(core[j] == 5 for j in second[i]) else 10 if any(core[j] == 8 for j in second[i]) else 0) for i, st in enumerate(one)]


NAMES = ['others', 'fcc', 'hcp', 'bcc', 'ico', 'cubic diamond', 'cubic diamond 1NN', 'cubic diamond 2NN', 'hex diamond', 'hex diamond 1NN', 'hex diamond 2NN']


def build(E, box, pos, before):
    s = E.mod('core').System()
    s.box = box
    s.set_atoms(atoms_of(E, pos))
    if before == 'cutoff':
        s.find_neighbors(method='cutoff', cutoff=3.5)
    elif before == 'cna':
        s.calculate_cna()
    elif before == 'diamond':
        s.identify_diamond()
    return s


def compare(E, s, res, want):
    for i, at in enumerate(s.atoms):
        E.same(at.structure, want[i], 'structure of atom %d' % i)
    E.same({q: int(v) for q, v in res.items()}, {n: want.count(i) for i, n in enumerate(NAMES)}, 'counts')


def perfect(E, kind, before='', again=False):
    a = E.real('a', 3, 5)
    box, pos = diamond(E, kind, a)
    s = build(E, box, pos, before)
    res = s.identify_diamond()
    if again:
        res = s.identify_diamond(find_neighbors=False)
    compare(E, s, res, [5 if kind == 'cubic' else 8] * len(pos))
    E.done()


def defect(E, kind, remove, direction, lo, hi, before=''):
    """an atom removed, another displaced"""
    a = E.const(4)
    box, pos = diamond(E, kind, a)
    if remove:
        # a little disorder, or the neighbors of vacancies had equally near candidates for the place of a removed one
        r = random.Random(3)
        pos = [[x + E.frac(r.randint(-48, 48), 1024) for x in p] for p in pos]
    if direction:
        t = E.real('t', lo, hi)
        pos[5] = [pos[5][x] + t * E.const(direction[x]) for x in range(3)]
    else:
        sc = E.real('a', 0.9, 1.1)
        pos = [[sc * x for x in p] for p in pos]
        box = [[sc * x for x in v] for v in box]
    pos = [p for i, p in enumerate(pos) if i not in remove]
    s = build(E, box, pos, before)
    if remove or direction:
        s_box = [[x for x in v] for v in box]
    res = s.identify_diamond()
    near, second, want = definition(E, box, pos)
    compare(E, s, res, want)
    s.find_diamond_neighbors()
    for i, at in enumerate(s.atoms):
        E.same(sorted(at.neighbors), sorted(second[i]), 'second neighbors of atom %d' % i)
    E.done()


def disordered(E, kind, seed, count=3, amount=5, hi=0.0625, before=''):
    """some atoms displaced by fixed amounts and one of them by a symbolic amount more: only part of the atoms is diamond"""
    box, pos = diamond(E, kind, E.const(4))
    r = random.Random(seed)
    moved = r.sample(range(len(pos)), count)
    for i in moved:
        pos[i] = [x + E.frac(r.choice([-1, 1]) * r.randint(amount // 2, amount), 8) for x in pos[i]]
    t = E.real('t', 0, hi)
    i = moved[0]
    pos[i] = [pos[i][0] + t, pos[i][1], pos[i][2] - t * E.frac(1, 2)]
    s = build(E, box, pos, before)
    res = s.identify_diamond()
    near, second, want = definition(E, box, pos)
    compare(E, s, res, want)
    E.done()


HARNESSES = [
    H('perfect', perfect, [{'kind': 'cubic', 'before': 'cutoff', 'again': True}, {'kind': 'hexagonal'}], [{'kind': k, 'before': b, 'again': g} for k in ('cubic', 'hexagonal') for b in ('', 'cutoff', 'cna', 'diamond') for g in (False, True)]),
    H('defect', defect, [{'kind': 'cubic', 'remove': [0, 1, 2, 3], 'direction': [1, 0.5, 0.25], 'lo': 0, 'hi': 0.001953125}, {'kind': 'cubic', 'remove': [], 'direction': [1, 0.5, 0.25], 'lo': 0.01, 'hi': 0.5}],
      [{'kind': k, 'remove': r, 'direction': None, 'lo': 0, 'hi': 0, 'before': b} for k in ('cubic', 'hexagonal') for r in ([0], [0, 1, 2, 3], [0, 1, 5, 7, 8, 30], list(range(16))) for b in ('', 'cna')]
      + [{'kind': k, 'remove': r, 'direction': d, 'lo': 0.01, 'hi': 0.75} for k in ('cubic', 'hexagonal') for r in ([], [0]) for d in ([1, 0.5, 0.25], [0, -1, 0], [0.25, 0, 1])]),
    H('disordered', disordered, [{'kind': 'cubic', 'seed': 10, 'hi': 0.0078125, 'before': 'cna'}, {'kind': 'cubic', 'seed': 6, 'hi': 0.0078125}],
      [{'kind': k, 'seed': n, 'hi': h, 'before': b} for k, n in (('cubic', 1), ('cubic', 3), ('cubic', 4), ('cubic', 7), ('cubic', 9), ('cubic', 10), ('hexagonal', 1), ('hexagonal', 8)) for h, b in ((0.0078125, ''), (0.03125, 'cna'))]),
]
