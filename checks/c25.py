"""C25: writing dump files and reading them back."""
import os

from engine.harness import H
from .c24 import compare
from .common import atoms_of

PROPERTY = dict(
    title='A system written to a dump file and read back is the same system',
    statement='For every system, orthogonal or triclinic, whatever the orientation of its box, a LAMMPS dump file written by to_file describes the same '
              'atoms: ids, types, order, box lengths and angles, and the relative positions, to the six decimals of the file (a box that is not in the form that '
              'LAMMPS demands is rotated with its atoms into that form).  Custom columns, from attributes, stored values, q values or arrays that are passed, '
              'belong to the right atoms.  Ghost atoms are not written and the system stays as it was.',
    quantifier=dict(over=['inputs', 'configurations'], text='all boxes, positions, ids, types and custom values'),
    why_tests_cant='The tests write one cubic crystal and look at the number of atoms in the file.',
    anchors=dict(files=['src/pyscal/formats/lammps.py', 'src/pyscal/traj_process.py', 'src/pyscal/core.py'],
                 mechanism=[dict(name='write_snap, read_snap', where='formats/lammps.py'), dict(name='System.to_file, get_custom', where='core.py')],
                 observe_at=['System.to_file', 'System.read_inputfile', 'Atom.custom']))

BOUNDS = ('2 or 3 atoms at symbolic positions with symbolic ids, types and custom values; symbolic orthogonal boxes, boxes with symbolic tilts, and fixed '
          'rotated boxes of rational lengths; plain and gz files; ghost copies')
OUTSIDE = 'other formats written by ASE; numbers too large for the format'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'a number written with %f and read back differs by at most half of the last decimal',
               'a left handed box may be mirrored: lengths and angles are the same']

# rotated boxes: vectors with rational lengths so that the rotated form is exact
ROTATED = {
    'axes': ([[0, 6, 0], [0, 0, 7], [8, 0, 0]], [[6, 0, 0], [0, 7, 0], [0, 0, 8]]),
    'plane': ([[3, 4, 0], [-4.5, 6, 0], [0, 0, 6]], [[5, 0, 0], [2.1, 7.2, 0], [0, 0, 6]]),
    'left': ([[5, 0, 0], [0, 0, 7], [0, 6, 0]], [[5, 0, 0], [0, 7, 0], [0, 0, 6]]),
    'space': ([[2, 4, 4], [-4, 4, -2], [4, 2, -4]], [[6, 0, 0], [0, 6, 0], [0, 0, 6]]),
    'skew': ([[2, 4, 4], [-3, 6, 0], [-5, 2, 5]], [[6, 0, 0], [3, 6, 0], [3, 3, 6]]),
    'upper': ([[3, 4, 0], [0, 5, 0], [0, 0, 6]], [[5, 0, 0], [4, 3, 0], [0, 0, 6]]),
    'corner': ([[6, 0, 0], [0, 6, 0], [0, 1.75, 6]], [[6, 0, 0], [0, 6, 0], [0, 1.75, 6]]),
}
TOL = 1e-5


def box_of(E, kind):
    if kind == 'ortho':
        b = [[E.real('L%d' % i, 2, 30) if i == j else 0 for j in range(3)] for i in range(3)]
        return b, b, None
    if kind == 'tilt':
        t = [E.real('t%d' % i, -3, 3) for i in range(3)]
        b = [[8, 0, 0], [t[0], 6, 0], [t[1], t[2], 7]]
        return b, b, None
    b, form = ROTATED[kind]
    b = [[E.const(x) if x else 0 for x in r] for r in b]
    return b, form, solve(ROTATED[kind][0], form)


def solve(a, b):
    """the matrix m with a m = b, as fractions"""
    from fractions import Fraction as F
    rows = [[F(x) for x in r] + [F(str(x)) for x in q] for r, q in zip(a, b)]
    for i in range(3):
        p = [k for k in range(i, 3) if rows[k][i]][0]
        rows[i], rows[p] = rows[p], rows[i]
        rows[i] = [x / rows[i][i] for x in rows[i]]
        for k in range(3):
            if k != i:
                rows[k] = [x - rows[k][i] * y for x, y in zip(rows[k], rows[i])]
    return [r[3:] for r in rows]


def image(E, p, m):
    if m is None:
        return p
    out = []
    for k in range(3):
        v = 0
        for i in range(3):
            if m[i][k]:
                v = v + p[i] * E.frac(m[i][k].numerator, m[i][k].denominator)
        out.append(v)
    return out


def roundtrip(E, n, kind, custom='', compressed=False, ghosts=False):
    box, form, m = box_of(E, kind)
    core = E.mod('core')
    pos = [[E.real('p%d%d' % (i, k), -10, 40) for k in range(3)] for i in range(n)]
    ids = [E.int('id%d' % i, 1, 100000) for i in range(n)]
    types = [E.int('ty%d' % i, 1, 50) for i in range(n)]
    atoms = atoms_of(E, pos, types, ids)
    s = core.System()
    s.box = box
    vals = [E.real('c%d' % i, -1000, 1000) for i in range(n)]
    other = [E.real('d%d' % i, -1000, 1000) for i in range(n)]
    keys, given = custom.split(), None
    for i, a in enumerate(atoms):
        if 'stored' in keys:
            a.custom = {'stored': vals[i], 'unused': 1}
        if 'volume' in keys:
            a.volume = other[i]
    if 'passed' in keys:
        given = [[vals[i] if k == 'passed' else other[i] for k in keys] for i in range(n)]
    if ghosts:
        s.set_atoms(s.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True))
    else:
        s.set_atoms(atoms)
    if 'q4' in keys:
        for i in range(n):
            a = s.get_atom(i)
            a.set_q(4, vals[i])
            a.set_q(6, other[i], averaged=True)
            s.set_atom(a)
    path = os.path.join(E.tmpdir(), 'out.dump')
    s.to_file(path, customkeys=keys or None, customvals=given, compressed=compressed, **({} if ghosts else {'timestep': 12}))
    ratoms, rbox = E.mod('traj_process').read_file(path, compressed=compressed, customkeys=keys or None)
    want = []
    for i in range(n):
        w = dict(id=ids[i], type=types[i], pos=image(E, pos[i], m), stored=vals[i], passed=vals[i], second=other[i], q4=vals[i], aq6=other[i],
                 volume=other[i])
        want.append(w)
    compare(E, form, want, rbox, ratoms, 'file', keys, TOL)
    # the system is as before
    E.check(s.natoms == n, 'number of atoms')
    now = s.atoms
    for i in range(n):
        E.same(now[i].id, ids[i], 'id after writing')
        E.eqs(now[i].pos, pos[i], 'position after writing')
    for r, b in zip(s.box, box):
        E.eqs(r, b, 'box after writing')
    import gzip
    with (gzip.open if compressed else open)(path, 'rt') as f:
        lines = f.read().split('\n')
    E.check(lines[0] == 'ITEM: TIMESTEP' and lines[1] == ('0' if ghosts else '12'), 'time step in the file')
    E.check(lines[2] == 'ITEM: NUMBER OF ATOMS' and lines[3] == str(n), 'number of atoms in the file')
    E.check(len([x for x in lines if x]) == n + 9, 'number of lines in the file')
    E.done()


def refused(E):
    """values that do not fit the atoms are refused"""
    core = E.mod('core')
    s = core.System()
    s.box = [[6, 0, 0], [0, 6, 0], [0, 0, 6]]
    n = E.choice('n', [1, 2, 3])
    s.set_atoms(atoms_of(E, [[E.real('x%d' % i, 0, 6), 1, 1] for i in range(n)]))
    rows = E.choice('rows', [1, 2, 3])
    cols = E.choice('cols', [1, 2])
    path = os.path.join(E.tmpdir(), 'out.dump')
    try:
        s.to_file(path, customkeys=['a'], customvals=[[1.0] * cols for r in range(rows)])
        ok = True
    except ValueError:
        ok = False
    E.check(ok == (rows == n and cols == 1), '%d rows of %d values for %d atoms: %s' % (rows, cols, n, 'accepted' if ok else 'refused'))
    E.done()


HARNESSES = [
    H('roundtrip', roundtrip,
      [dict(n=2, kind='ortho', custom='stored'), dict(n=3, kind='ortho', custom='passed second', compressed=True), dict(n=2, kind='ortho', custom='q4 aq6 volume'),
       dict(n=2, kind='tilt'), dict(n=2, kind='skew', ghosts=True)]
      + [dict(n=2, kind=k) for k in ('axes', 'plane', 'left', 'space', 'upper', 'corner')],
      [dict(n=n, kind=k, custom=c, compressed=z, ghosts=g) for n in (2, 3) for k in ['ortho', 'tilt'] + sorted(ROTATED) for c in ('', 'stored', 'passed second', 'q4 aq6')
       for z, g in ((False, False), (True, False), (False, True))]),
    H('refused', refused, [{}]),
]
