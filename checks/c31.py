"""C31: reports on the cells of a file (misc.py)."""
import contextlib
import io
import types
import warnings
from engine.harness import H
from .common import atoms_of

PROPERTY = dict(
    title='Environment comparison and void search report the atoms of the file',
    statement='compare_atomic_env reports every volume that occurs among the atoms of the given type, rounded to the given precision, once, with the Voronoi '
              'fingerprint of the atoms of that volume and their number.  find_tetrahedral_voids reports exactly the atoms whose cell has four four-sided '
              'faces and whose nearest neighbors, up to the given relative precision, are four, each with its type, volume and position, the latter in direct '
              'coordinates of the box unless told otherwise, for neighbors across the boundaries as well.',
    quantifier=dict(over=['inputs', 'configurations'], text='all volumes, fingerprints, types, positions, boxes and precisions'),
    why_tests_cant='There is no test of the module.',
    anchors=dict(files=['src/pyscal/misc.py'], mechanism=[dict(name='compare_atomic_env, find_tetrahedral_voids', where='misc.py')],
                 observe_at=['pyscal.misc.compare_atomic_env', 'pyscal.misc.find_tetrahedral_voids']))

BOUNDS = ('3 to 5 atoms, two of them with symbolic volumes and any of three fingerprints and two types; voids of 8 atoms, one neighbor at a symbolic distance, orthogonal and '
          'triclinic boxes, with and without periodic copies')
OUTSIDE = 'the Voronoi cells (C18, C19): volumes and fingerprints are given; volumes within 1e-6 of a rounding boundary and distances within 1e-6 of a limit'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'the Voronoi search and the Voronoi vector are those of C18 and C19']

PRINTS = [[0, 6, 0, 8], [0, 4, 4, 0], [10, 2, 3, 1]]


@contextlib.contextmanager
def given(E, s, load, cells):
    """the system that the functions make reads, and has the cells, given here"""
    M = E.mod('misc')
    asked = []

    def read(infile, format='lammps-dump', **kw):
        asked.append((infile, format))
        load()

    def find(method='cutoff', **kw):
        asked.append(('neighbors', method))

    def vector(**kw):
        asked.append(('vector', ''))
        cells()
    s.read_inputfile, s.find_neighbors, s.calculate_vorovector = read, find, vector
    old = M.pc
    M.pc = types.SimpleNamespace(System=lambda: s, Atom=E.mod('core').Atom)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield asked
    finally:
        M.pc = old


def half(E, x, digits):
    """x rounded to a number of digits"""
    k = 10 ** digits
    y = x * k + E.frac(1, 2)
    for c in range(13 * k - 2, 13 * k + 4):
        E.apart(y, c + 1, 1e-4)
        if y < c + 1:
            return c
    assert 0


def compare(E, n, digits, printed=False, back=False):
    S = E.mod('core').System()
    step = 10.0 ** -digits
    vols = [E.real('v%d' % i, 13 - 0.75 * step, 13 + 1.75 * step) if i < 2 else E.const(13) + E.const(i - 3) * E.frac(1, 10 ** digits) for i in range(n)]
    kinds = [E.choice('print%d' % i, [0, 1, 2]) if i < 2 else [0, 1, 2][(i + n) % 3] for i in range(n)]
    typ = [2, 2, 1, 2, 2, 1][:n]
    pos = [[i, 0, 0] for i in range(n)]

    def load():
        S.box = [[20, 0, 0], [0, 20, 0], [0, 0, 20]]
        S.set_atoms(atoms_of(E, pos, typ))

    def cells():
        for i in range(n):
            a = S.get_atom(i)
            a.volume = vols[i]
            a.vorovector = PRINTS[kinds[i]]
            S.set_atom(a)
    want = {}
    for i in range(n):
        if typ[i] == 2:
            want.setdefault(half(E, vols[i], digits), []).append(kinds[i])
    same = all(len(set(k)) == 1 for k in want.values())
    M = E.mod('misc')
    out = io.StringIO()
    with given(E, S, load, cells) as asked:
        if printed:
            with contextlib.redirect_stdout(out):
                res = M.compare_atomic_env('file', atomtype=2, precision=digits, format='lammps-dump', return_system=back)
        else:
            res = M.compare_atomic_env('file', atomtype=2, precision=digits, format='lammps-dump', print_results=False, return_system=back)
    E.same(asked, [('file', 'lammps-dump'), ('neighbors', 'voronoi'), ('vector', '')], 'what is asked of the system')
    if back and not printed:
        E.check(len(res) == 2 and res[1] is S, 'the system is returned')
        res = res[0]
    elif back:
        E.check(res is S, 'the system is returned')
    keys = sorted(want)
    text = [' '.join(str(c) for c in PRINTS[want[k][0]]) for k in keys]
    if printed:
        lines = [x for x in out.getvalue().split('\n') if x]
        E.same(lines[0].split()[0], str(len(keys)), 'number of clusters')
        E.same(len(lines), len(keys) + 1, 'lines')
        for k, t, l in zip(keys, text, lines[1:]):
            E.check(('<%s>' % t in l) == same, 'fingerprint in ' + l)
            E.eq(E.parse(l.split('vol = ')[1].split(',')[0]), E.frac(k, 10 ** digits), 'volume', 0.001)
            E.same(int(l.split('counts = ')[1]), len(want[k]), 'count')
    else:
        E.same(len(res), 3, 'three lists')
        E.same([len(x) for x in res], [len(keys)] * 3, 'lengths')
        for j, k in enumerate(keys):
            E.eq(E.parse(str(res[0][j])), E.frac(k, 10 ** digits), 'volume', 1e-6)
            if len(set(want[k])) == 1:
                E.same(str(res[1][j]), text[j], 'fingerprint')
            E.same(int(res[2][j]), len(want[k]), 'count')
    E.done()


VOIDS = [[1, 2, 2], [-1, -2, 2], [2, -1, -2], [-2, 1, -2], [2, -2, 1]]
BOXES = {'ortho': [[10, 0, 0], [0, 11, 0], [0, 0, 12]], 'tri': [[10, 0, 0], [1, 11, 0], [-0.5, 2, 12]]}


def voids(E, box, near, precision, copies=False, direct=True, at=(0.5, 5, 6)):
    core = E.mod('core')
    S = core.System()
    b = BOXES[box]
    k = E.const
    q = k(0.5)
    t = E.real('t', 0.75, 1.25)
    pos = [[k(c) for c in at]]
    for i, v in enumerate(VOIDS[:near]):
        f = q * t if i == 0 else q
        # some of them on the other side of the box
        side = 1 if v[0] < 0 else 0
        pos.append([pos[0][x] + f * v[x] + side * b[0][x] for x in range(3)])
    while len(pos) < 8:
        i = len(pos)
        pos.append([k(at[0] + 0.5 * i - 2), k(at[1] + 4.25), k(at[2] + 0.25 * i)])
    typ = [E.int('type0', 1, 3)] + [1 + i % 2 for i in range(7)]
    vols = [E.real('vol%d' % i, 5, 20) if i < 2 else k(10 + i) for i in range(8)]
    kind = E.choice('faces', [[0, 4, 4, 0], [4, 0, 0, 0], [0, 5, 0, 4]])
    other = [0, 6, 0, 8]

    def load():
        S.box = [list(v) for v in b]
        atoms = atoms_of(E, pos, typ)
        if copies:
            S.atoms = atoms
        else:
            S.set_atoms(atoms)

    def cells():
        core.System.find_neighbors(S, method='cutoff', cutoff=2.5)
        for i in range(8):
            a = S.get_atom(i)
            a.volume = vols[i]
            a.vorovector = kind if i == 0 else other
            S.set_atom(a)
    dist = [k(1.5) * t] + [k(1.5)] * (near - 1)
    least = dist[0] if len(dist) < 2 or dist[0] < dist[1] else dist[1]
    hi, lo = least * (1 + k(precision)), least * (1 - k(precision))
    count = 0
    for d in dist:
        E.apart(d, hi)
        if lo <= d <= hi:
            count += 1
    M = E.mod('misc')
    with given(E, S, load, cells):
        if direct:
            res = M.find_tetrahedral_voids('file', format='lammps-dump', print_results=False, precision=precision)
        else:
            res = M.find_tetrahedral_voids('file', format='lammps-dump', print_results=False, precision=precision, direct_coordinates=False, return_system=True)
            E.check(res[3] is S, 'the system is returned')
    E.same(len(res[0]), 1 if kind[1] == 4 and count == 4 else 0, 'number of voids')
    E.same([len(x) for x in res[:3]], [len(res[0])] * 3, 'lengths')
    if len(res[0]):
        E.same(res[0][0], typ[0], 'type')
        E.eq(res[1][0], vols[0], 'volume')
        p = list(res[2][0])
        if direct:
            p = [sum(p[i] * k(b[i][x]) for i in range(3)) for x in range(3)]
        E.eqs(p, pos[0], 'position', 1e-6)
    E.done()


HARNESSES = [
    H('compare', compare, [{'n': 4, 'digits': 2}, {'n': 3, 'digits': 1, 'back': True}, {'n': 3, 'digits': 2, 'printed': True}],
      [{'n': n, 'digits': d, 'printed': p, 'back': r} for n in (3, 4, 5) for d in (0, 1, 2, 3) for p, r in ((False, False), (True, True), (False, True))]),
    H('voids', voids, [{'box': 'ortho', 'near': 4, 'precision': 0.125}, {'box': 'tri', 'near': 4, 'precision': 0.1, 'copies': True}, {'box': 'tri', 'near': 5, 'precision': 0.1, 'direct': False}],
      [{'box': b, 'near': n, 'precision': p, 'copies': c, 'direct': d} for b in BOXES for n in (3, 4, 5) for p in (0.1, 0.2) for c in (False, True) for d in (False, True)]),
]
