"""C10: the list of atoms of a system."""
from engine.harness import H
from .common import atoms_of, ortho_box

PROPERTY = dict(
    title='A system returns the atoms it was given, and copies represent its periodicity',
    statement='The atoms of a system come back in the order and with the attributes they were given, set_atom replaces exactly the atom it was read from, q parameters outside 2 to 12 are refused, and added atoms '
              'follow those already there, wherever the atoms came from.  A system of less than 200 atoms holds periodic copies: after any sequence of assigning, adding and '
              'modifying atoms or boxes each atom has exactly one copy of its type at every box vector shift within the same range, the inner box spans all of them, and they '
              'do not show up among the atoms, their number or the box the user sees.',
    quantifier=dict(over=['inputs', 'histories'], text='all positions, types, ids, values of loc, box shapes and sequences of operations'),
    why_tests_cant='The only test reads back the position of the first atom; copies are never looked at.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='set_atoms, get_atoms, add_atoms, get_all_atoms, gatom, satom', where='system.cpp'),
                            dict(name='atoms, box, add_atoms, repeat, set_atom, iter_atoms', where='core.py')],
                 observe_at=['System.atoms', 'System.get_atom', 'System.get_all_atoms', 'System.natoms', 'System.ntotal', 'System.box', 'System.iter_atoms']))

BOUNDS = ('2 to 5 atoms with symbolic coordinates, types and values of loc; up to 4 operations in sequence; orthogonal and triclinic boxes')
OUTSIDE = 'rounding; lists in which ghosts precede real atoms'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']

BOXES = {'ortho': [[5, 0, 0], [0, 6, 0], [0, 0, 7]], 'tri': [[5, 0, 0], [1, 6, 0], [0.5, -1, 7]], 'hex': [[4, 0, 0], [-2, 3.5, 0], [0, 0, 7]]}


def make(E, n, sym=True, loc=False):
    pos = [[0.5 + i, 1.25 + 0.5 * i, 2 + 0.25 * i] for i in range(n)]
    if sym:
        for i in range(min(n, 3)):
            pos[i][i % 3] = pos[i][i % 3] + E.real('p%d' % i, -3, 3)
    types = [E.int('t%d' % i, 1, 4) if i < 2 else 1 + i % 2 for i in range(n)]
    atoms = atoms_of(E, pos, types, [7 * i + 3 for i in range(n)])
    for i, a in enumerate(atoms):
        a.loc = (n - 1 - i) if loc else 0
        a.custom = {'tag': i}
    return atoms, [dict(pos=p, type=t, id=7 * i + 3, tag=i) for i, (p, t) in enumerate(zip(pos, types))]


def same_atoms(E, s, want, tag):
    n = len(want)
    E.same(s.natoms, n, tag + 'number of atoms')
    for name, got in (('atoms', s.atoms), ('get_atom', [s.get_atom(i) for i in range(n)]), ('iter_atoms', list(s.iter_atoms())), ('get_all_atoms', s.get_all_atoms()[:n])):
        E.same(len(got), n, tag + 'length of ' + name)
        for i, (a, w) in enumerate(zip(got, want)):
            E.eqs(a.pos, w['pos'], '%sposition %d by %s' % (tag, i, name))
            E.same(a.type, w['type'], '%stype %d by %s' % (tag, i, name))
            E.same(a.id, w['id'], '%sid %d by %s' % (tag, i, name))
            E.same(a.ghost, 0, '%satom %d is not a copy' % (tag, i))
            E.same(a.custom.get('tag'), w['tag'], '%scustom value %d by %s' % (tag, i, name))


def copies(E, s, want, box, tag):
    n = len(want)
    full = s.get_all_atoms()
    E.same(s.ntotal, len(full), tag + 'total number')
    m, r = divmod(len(full), n)
    E.check(r == 0, tag + 'a whole number of copies')
    k = {27: 1, 125: 2, 343: 3}.get(m)
    E.check(k is not None, tag + 'copies in all directions (%d)' % m)
    E.eqs(s._box, [[(2 * k + 1) * x for x in v] for v in box], tag + 'inner box')
    E.eqs(s.box, box, tag + 'box')
    # copies are found by number: the shift of copy c of atom 0 is that of all atoms
    seen = set()
    det = (box[0][0] * (box[1][1] * box[2][2] - box[1][2] * box[2][1]) - box[0][1] * (box[1][0] * box[2][2] - box[1][2] * box[2][0])
           + box[0][2] * (box[1][0] * box[2][1] - box[1][1] * box[2][0]))
    cross = [[box[(i + 1) % 3][(k_ + 1) % 3] * box[(i + 2) % 3][(k_ + 2) % 3] - box[(i + 1) % 3][(k_ + 2) % 3] * box[(i + 2) % 3][(k_ + 1) % 3] for k_ in range(3)] for i in range(3)]
    for c in range(1, m):
        d = [full[c * n].pos[x] - want[0]['pos'][x] for x in range(3)]
        f = [E.number(E.dot(d, cross[i]) / det) for i in range(3)]
        E.check(all(abs(x - round(x)) < 1e-6 and abs(round(x)) <= k for x in f), '%scopy %d is at a box vector shift' % (tag, c))
        f = tuple(round(x) for x in f)
        E.check(f not in seen and f != (0, 0, 0), '%scopy %d has a shift of its own' % (tag, c))
        seen.add(f)
        sh = [sum(f[i] * box[i][x] for i in range(3)) for x in range(3)]
        for i, w in enumerate(want):
            a = full[c * n + i]
            E.eqs(a.pos, [w['pos'][x] + sh[x] for x in range(3)], '%scopy %d of atom %d' % (tag, c, i), 1e-6)
            E.same(a.type, w['type'], '%stype of copy %d of atom %d' % (tag, c, i))
            E.same(a.ghost, 1, '%sflag of copy %d of atom %d' % (tag, c, i))


def extra(E, n, k=1):
    atoms, want = [], []
    for j in range(k):
        p = [1.5 + E.real('e%d' % j, -1, 1), 3, 0.25]
        a = E.mod('core').Atom(pos=list(p), id=100 + j, type=2)
        a.custom = {'tag': 50 + j}
        atoms.append(a)
        want.append(dict(pos=p, type=2, id=100 + j, tag=50 + j))
    return atoms, want


def move(E, s, want, i):
    a = s.get_atom(i)
    p = [2 + E.real('m%d' % i, -2, 2), 1, 4]
    a.pos = p
    a.type = 3
    s.set_atom(a)
    want[i] = dict(want[i], pos=p, type=3)


def small(E, box, n, ops):
    b = BOXES[box]
    s = E.mod('core').System()
    s.box = [list(v) for v in b]
    atoms, want = make(E, n)
    s.atoms = atoms
    for o in ['start'] + ops.split():
        if o == 'add':
            x, w = extra(E, n)
            s.add_atoms(x)
            want = want + w
        elif o == 'move':
            move(E, s, want, len(want) - 1)
        elif o == 'again':
            s.atoms = s.atoms
        elif o == 'box':
            b = [[2 * x for x in v] for v in b]
            s.box = [list(v) for v in b]
            s.atoms = s.atoms
        elif o == 'fewer':
            want = want[1:]
            s.atoms = s.atoms[1:]
        elif o == 'neighbors':
            s.find_neighbors(method='cutoff', cutoff=0.5)
        same_atoms(E, s, want, o + ': ')
        copies(E, s, want, b, o + ': ')
    E.done()


def plain(E, n, ops, loc=False):
    """without copies"""
    b = BOXES['ortho']
    s = E.mod('core').System()
    s.box = [list(v) for v in b]
    atoms, want = make(E, n, loc=loc)
    s.set_atoms(atoms)
    ghosts = 0
    for o in ['start'] + ops.split():
        if o == 'add':
            x, w = extra(E, n, 2)
            s.add_atoms(x)
            want = want + w
        elif o == 'move':
            i = E.choice('which', range(len(want)))
            move(E, s, want, i)
        elif o == 'mixed':
            x, w = extra(E, n, 2)
            g = E.mod('core').Atom(pos=[1, 1, 1], id=77, type=1)
            g.ghost = 1
            s.add_atoms([g, x[0], x[1]] if ghosts == 0 else [x[0], g, x[1]])
            want = want + w
            ghosts += 1
        elif o == 'reverse':
            want = want[::-1]
            s.set_atoms(s.atoms[::-1])
        same_atoms(E, s, want, o + ': ')
        E.same(s.ntotal, len(want) + ghosts, o + ': total number')
        E.eqs(s._box, b, o + ': box')
    E.done()


def grown(E):
    """from a small system to one that needs no copies and back"""
    b = BOXES['ortho']
    s = E.mod('core').System()
    s.box = [list(v) for v in b]
    atoms, want = make(E, 2, sym=False)
    s.atoms = atoms
    many = [[0.1 * (i % 10), 0.25 * (i // 10), 0.5] for i in range(200)]
    x = E.real('x', 0, 1)
    many[5][0] = x
    s.atoms = atoms_of(E, many)
    E.same(s.ntotal, 200, 'no copies')
    E.eqs(s._box, b, 'inner box')
    E.eqs(s.box, b, 'box')
    E.eqs(s.get_atom(5).pos, many[5], 'position')
    s.atoms = atoms
    same_atoms(E, s, want, 'small again: ')
    copies(E, s, want, b, 'small again: ')
    E.done()


INTS = ['id', 'type', 'condition', 'cluster', 'structure', 'bonds']
REALS = ['cutoff', 'avg_sij', 'disorder', 'avg_disorder', 'volume', 'avg_volume', 'angular', 'avg_angular', 'centrosymmetry', 'entropy', 'avg_entropy',
         'energy', 'avg_energy']
FLAGS = ['solid', 'surface', 'largest_cluster', 'mask']


def fill(E, a, k):
    """set every attribute of an atom; the values that have to come back"""
    v = {}

    def put(name, val):
        setattr(a, name, val)
        v[name] = val
    put('pos', [E.real('%dp%d' % (k, i), -30, 30) for i in range(3)])
    n = 3 + k
    put('neighbors', [(3 * i + k) % 7 for i in range(n)])
    E.eqs(a.neighbor_weights, [1] * n, 'weights of new neighbors')
    E.same(a.coordination, n, 'number of neighbors')
    for name in INTS:
        put(name, E.int('%d%s' % (k, name), -9, 30000))
    for name in REALS:
        put(name, E.real('%d%s' % (k, name), -100, 100))
    for i, name in enumerate(FLAGS):
        put(name, (i + k) % 2)
    put('neighbor_weights', [E.real('%dw%d' % (k, i), 0, 1) for i in range(n)])
    put('face_vertices', [3 + i for i in range(n)])
    put('face_perimeters', [E.real('%df%d' % (k, i), 0, 9) for i in range(n)])
    put('next_neighbors', [[i, 5 - i] for i in range(n)])
    put('next_neighbor_distances', [[E.real('%dn%d' % (k, i), 0, 9), 2.5] for i in range(n)])
    put('allq', [E.real('%dq%d' % (k, i), 0, 1) for i in range(11)])
    put('allaq', [E.real('%daq%d' % (k, i), 0, 1) for i in range(11)])
    put('vertex_numbers', [4, 0, 1, 2, 3])
    put('vertex_vectors', [E.real('%dv%d' % (k, i), -3, 3) for i in range(6)])
    put('vertex_positions', [[E.real('%dx%d' % (k, i), -3, 3), 1, 2] for i in range(2)])
    put('edge_lengths', [[E.real('%de%d' % (k, i), 0, 3), 0.5] for i in range(n)])
    put('vorovector', [E.int('%dc%d' % (k, i), 0, 20) for i in range(4)])
    put('chiparams', [i + k for i in range(9)])
    put('sro', [E.real('%ds%d' % (k, i), -2, 2) for i in range(2)])
    put('custom', {'tag': k, 'x': 'y'})
    return v


def whole(E, a, v, t):
    for name, val in v.items():
        got = getattr(a, name)
        if name == 'custom':
            E.same(dict(got), val, t + name)
        elif name in FLAGS:
            E.same(int(got), val, t + name)
        elif isinstance(val, list):
            E.same(len(got), len(val), t + 'length of ' + name)
            for x, y in zip(got, val):
                if isinstance(y, list):
                    E.eqs(list(x), y, t + name)
                else:
                    E.eq(x, y, t + name)
        else:
            E.eq(got, val, t + name)
    E.same(a.coordination, len(v['neighbors']), t + 'coordination')
    for i in range(11):
        E.eq(a.get_q(i + 2), v['allq'][i], t + 'q%d' % (i + 2))
        E.eq(a.get_q(i + 2, averaged=True), v['allaq'][i], t + 'averaged q%d' % (i + 2))
    for ls in ([6, 4], [12, 2, 7]):
        E.eqs(a.get_q(ls), [v['allq'][i - 2] for i in ls], t + 'list of q')
        E.eqs(a.get_q(ls, averaged=True), [v['allaq'][i - 2] for i in ls], t + 'list of averaged q')


def attributes(E, how):
    """all attributes of atoms, on their way through a system"""
    M = E.mod('core')
    atoms = [M.Atom(pos=[i, 0, 0], id=i, type=1) for i in range(3)]
    vals = [fill(E, a, k) for k, a in enumerate(atoms[:2])]
    for a, v in zip(atoms, vals):
        whole(E, a, v, 'atom: ')
    # one of the parameters at a time
    for l, ave in ((2, False), (12, False), (5, True), (12, True)):
        x = E.real('one%d%d' % (l, ave), 0, 1)
        atoms[0].set_q(l, x, averaged=ave)
        key = 'allaq' if ave else 'allq'
        vals[0][key] = vals[0][key][:l - 2] + [x] + vals[0][key][l - 1:]
    x, y = E.real('two0', 0, 1), E.real('two1', 0, 1)
    atoms[1].set_q([6, 3], [x, y])
    vals[1]['allq'] = vals[1]['allq'][:1] + [y] + vals[1]['allq'][2:4] + [x] + vals[1]['allq'][5:]
    for a, v in zip(atoms, vals):
        whole(E, a, v, 'after set_q: ')
    for l in (-1, 0, 1, 13, 14):
        for ave in (False, True):
            for f in (lambda: atoms[0].get_q(l, averaged=ave), lambda: atoms[0].get_q([4, l], averaged=ave),
                      lambda: atoms[0].set_q(l, 0.5, averaged=ave), lambda: atoms[0].set_q([l], [0.5], averaged=ave)):
                try:
                    f()
                    E.check(False, 'a parameter q%d is refused' % l)
                except ValueError:
                    pass
    for a, v in zip(atoms, vals):
        whole(E, a, v, 'after refused calls: ')
    s = M.System()
    s.box = [[9, 0, 0], [0, 9, 0], [0, 0, 9]]
    if how == 'list':
        s.set_atoms(atoms)
    elif how == 'copies':
        s.atoms = atoms
    elif how == 'add':
        s.set_atoms(atoms[2:])
        s.add_atoms(atoms[:2])
        s.set_atoms([s.get_atom(1), s.get_atom(2), s.get_atom(0)])
    elif how == 'set':
        s.set_atoms([M.Atom(pos=[1, i, 0], id=i, type=1) for i in range(3)])
        for i in (0, 1):
            a = s.get_atom(i)
            b = atoms[i]
            b.loc = a.loc
            s.set_atom(b)
    for name, got in (('atoms', s.atoms), ('get_atom', [s.get_atom(i) for i in range(3)])):
        for a, v in zip(got, vals):
            whole(E, a, v, how + ' ' + name + ': ')
    E.done()


HARNESSES = [
    H('attributes', attributes, [{'how': h} for h in ('list', 'copies', 'add', 'set')], [{'how': h} for h in ('list', 'copies', 'add', 'set')]),
    H('small', small, [{'box': 'ortho', 'n': 2, 'ops': 'move add move'}, {'box': 'tri', 'n': 2, 'ops': 'box again'}, {'box': 'hex', 'n': 3, 'ops': 'fewer add'}, {'box': 'tri', 'n': 1, 'ops': 'move'}],
      [{'box': b, 'n': n, 'ops': o} for b in BOXES for n in (1, 2, 3) for o in ('move add move again', 'box add', 'again box move', 'add add again', 'neighbors move') ] + [{'box': b, 'n': 3, 'ops': 'fewer add fewer move'} for b in BOXES]),
    H('plain', plain, [{'n': 3, 'ops': 'move add move'}, {'n': 4, 'ops': 'reverse move', 'loc': True}, {'n': 4, 'ops': 'mixed mixed move'}, {'n': 2, 'ops': 'add reverse move'}],
      [{'n': n, 'ops': o, 'loc': l} for n in (1, 2, 3, 4, 5) for o in ('move add move', 'reverse move add', 'add reverse move', 'add add move', 'mixed move mixed') for l in (False, True)]),
    H('grown', grown, [{}]),
]
