"""C24: reading LAMMPS dump files."""
import gzip
import os

from engine.harness import H

PROPERTY = dict(
    title='Reading a dump file gives the box and atoms that the file describes',
    statement='For every LAMMPS dump snapshot, orthogonal or triclinic, with positions x y z or scaled positions xs ys zs, and columns in any order, the box '
              'vectors are those given by bounds and tilt factors, the atoms are those of the file in its order with their ids and types, and their '
              'positions are those of the file but for one common shift of all atoms.  Extra columns asked for are stored with the atom that they belong '
              'to.  This is the same for plain, compressed and already read files, and lines after the snapshot do not matter.',
    quantifier=dict(over=['inputs', 'configurations'], text='all bounds, tilts, positions, ids, types and column values; column orders and kinds of file'),
    why_tests_cant='The tests read a few files with one column order and check the number of atoms and some box lengths; no test compares positions of '
                   'atoms with scaled or triclinic files.',
    anchors=dict(files=['src/pyscal/formats/lammps.py', 'src/pyscal/traj_process.py', 'src/pyscal/core.py'],
                 mechanism=[dict(name='read_snap', where='formats/lammps.py'), dict(name='read_file', where='traj_process.py'),
                            dict(name='System.read_inputfile', where='core.py')],
                 observe_at=['System.read_inputfile', 'traj_process.read_file', 'System.box', 'System.atoms', 'Atom.custom']))

BOUNDS = ('1 to 4 atoms, all numbers of the file symbolic (bounds, tilts, positions, ids, types, one extra column), 5 column orders, orthogonal and triclinic, '
          'scaled and unscaled, plain, gz, list of lines')
OUTSIDE = ('where the origin of a box lies: positions are judged up to a shift of all atoms, which no distance or order parameter depends on; files which '
           'are not dump files; the text of numbers (a symbolic number is written and read as one token)')
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'reading the decimal text of a number gives that number']

ORDERS = ['id type x y z c', 'c z y x type id', 'type c id y x z', 'x y z vx id vy type c', 'id type x y z']


def snapshot(E, n, order, tri, scaled, tag='', extra=True, timestep=0):
    """lines of a dump snapshot with symbolic values, and what they mean"""
    L = [E.real('%sL%d' % (tag, k), 2, 30) for k in range(3)]
    lo = [E.real('%slo%d' % (tag, k), -20, 20) for k in range(3)]
    if tri:
        # ratios of tilt and length are at most 1/2 as LAMMPS demands for tilts it writes
        xy, xz, yz = [E.real('%st%d' % (tag, k), 0 if tri == 'positive' else -8, 8) for k in range(3)]
    else:
        xy = xz = yz = 0
    box = [[L[0], 0, 0], [xy, L[1], 0], [xz, yz, L[2]]]
    cols = order.split()
    head = ['ITEM: TIMESTEP', '%d' % timestep, 'ITEM: NUMBER OF ATOMS', '%d' % n]
    if tri:
        def least(*v):
            m = v[0]
            for x in v[1:]:
                if x < m:
                    m = x
            return m
        if tri == 'positive':
            b0, b1, c0, c1 = 0, xy + xz, 0, yz
        else:
            b0 = least(0, xy, xz, xy + xz)
            b1 = -least(0, -xy, -xz, -xy - xz)
            c0 = least(0, yz)
            c1 = -least(0, -yz)
        head += ['ITEM: BOX BOUNDS xy xz yz pp pp pp', f'{lo[0] + b0} {lo[0] + L[0] + b1} {xy}', f'{lo[1] + c0} {lo[1] + L[1] + c1} {xz}',
                 f'{lo[2]} {lo[2] + L[2]} {yz}']
    else:
        head += ['ITEM: BOX BOUNDS pp pp pp'] + [f'{lo[k]} {lo[k] + L[k]}' for k in range(3)]
    head.append('ITEM: ATOMS ' + ' '.join(c + 's' if scaled and c in 'xyz' else c for c in cols))
    atoms = []
    for i in range(n):
        p = [E.real('%sp%d%d' % (tag, i, k), 0, 1) if scaled else E.real('%sp%d%d' % (tag, i, k), -50, 50) for k in range(3)]
        a = dict(id=E.int('%sid%d' % (tag, i), 1, 100000), type=E.int('%sty%d' % (tag, i), 1, 50), c=E.real('%sc%d' % (tag, i), -1e6, 1e6),
                 vx=E.const(0.5), vy=E.const(-0.25))
        a.update(zip('xyz', p))
        head.append(' '.join(f'{a[c]}' for c in cols))
        a['pos'] = p
        if scaled:
            a['pos'] = [p[0] * box[0][k] + p[1] * box[1][k] + p[2] * box[2][k] for k in range(3)]
        atoms.append(a)
    return [x + '\n' for x in head], box, atoms


def compare(E, box, atoms, rbox, ratoms, what, keys=(), tol=1e-7, shift=True):
    for i in range(3):
        for k in range(3):
            E.eq(rbox[i][k], box[i][k], '%s: box vector %d, component %d' % (what, i, k), tol)
    E.check(len(ratoms) == len(atoms), '%s: %d atoms read of %d in the file' % (what, len(ratoms), len(atoms)))
    for i, (a, r) in enumerate(zip(atoms, ratoms)):
        E.same(r.id, a['id'], '%s: id of atom %d' % (what, i))
        E.same(r.type, a['type'], '%s: type of atom %d' % (what, i))
        for k in range(3):
            d = a['pos'][k] - atoms[0]['pos'][k] if shift else a['pos'][k]
            e = r.pos[k] - ratoms[0].pos[k] if shift else r.pos[k]
            E.eq(e, d, '%s: position of atom %d along %d%s' % (what, i, k, ' from the first' if shift else ''), tol)
        E.check(set(keys) == set(r.custom), '%s: atom %d has extra values %s' % (what, i, sorted(r.custom)))
        for key in keys:
            E.eq(E.parse(r.custom[key]), a[key], '%s: column %s of atom %d' % (what, key, i), tol)


def write(E, lines, kind, name='s.dump'):
    path = os.path.join(E.tmpdir(), name)
    if kind == 'list':
        return list(lines), False
    if kind == 'gz':
        path += '.gz'
    opener = gzip.open if kind in ('gz', 'compressed') else open
    with opener(path, 'wt') as f:
        f.writelines(lines)
    return path, kind == 'compressed'


def read(E, n, order, tri, scaled, kind, keys, trailing=0):
    lines, box, atoms = snapshot(E, n, order, tri, scaled)
    more = []
    for t in range(trailing):
        more += [x for x in lines]
        more[-1] = ' '.join(['7'] * len(order.split())) + '\n'
    if trailing < 0:
        more = lines[:trailing]
    path, compressed = write(E, lines + more, kind)
    ptp = E.mod('traj_process')
    ratoms, rbox = ptp.read_file(path, compressed=compressed, customkeys=list(keys) or None)
    E.observe('box', [x for r in rbox for x in r])
    E.observe('pos', [x for a in ratoms for x in a.pos])
    compare(E, box, atoms, rbox, ratoms, 'dump file', keys)
    E.done()


def as_system(E, n, order, tri, scaled, kind, keys):
    """through System.read_inputfile, with the copies that small systems get"""
    lines, box, atoms = snapshot(E, n, order, tri, scaled)
    if tri:
        for x in (box[1][0], box[2][0], box[2][1]):
            E.assume(x < 1)
            E.assume(x > -1)
    path, compressed = write(E, lines, kind)
    s = E.mod('core').System()
    s.read_inputfile(path, compressed=compressed, customkeys=list(keys) or None)
    ratoms, rbox = s.atoms, s.box
    E.observe('box', [x for r in rbox for x in r])
    E.observe('pos', [x for a in ratoms for x in a.pos])
    compare(E, box, atoms, rbox, ratoms, 'system', keys)
    E.check([a.loc for a in ratoms] == list(range(n)), 'the atoms of the system are not numbered in order')
    E.done()


def fails(E, what):
    """what is not a dump file is refused"""
    lines, box, atoms = snapshot(E, 1, ORDERS[0], False, False)
    keys = None
    if what == 'key':
        keys = ['q']
        error = KeyError
    elif what == 'columns':
        lines[8] = 'ITEM: ATOMS id type xu yu zu c\n'
        error = ValueError
    else:
        error = FileNotFoundError
    path, _ = write(E, lines, 'plain')
    if what == 'file':
        path += '.none'
    try:
        E.mod('traj_process').read_file(path, customkeys=keys)
        bad = True
    except error:
        bad = False
    E.check(not bad, 'reading a dump file did not fail: %s' % what)
    E.done()


Q = [dict(n=n, order=o, tri=t, scaled=s, kind=k, keys=('c',) if ' c' in ' ' + o and c else (), trailing=tr) for n, o, t, s, k, c, tr in [
    (2, ORDERS[0], False, False, 'plain', 1, 1), (2, ORDERS[1], False, True, 'list', 1, 0), (2, ORDERS[2], True, False, 'gz', 1, 0),
    (2, ORDERS[3], True, True, 'compressed', 1, 1), (1, ORDERS[4], False, False, 'gz', 1, -3), (3, ORDERS[4], True, True, 'list', 0, 0),
    (3, ORDERS[3], False, True, 'plain', 0, -1)]]
T = [dict(n=n, order=o, tri=t, scaled=s, kind=k, keys=('c',) if ' c' in ' ' + o else (), trailing=1)
     for n in (1, 2, 4) for o in ORDERS for t in (False, True) for s in (False, True) for k in ('plain', 'list', 'gz')]
HARNESSES = [
    H('read', read, Q, T),
    H('as_system', as_system, [dict(n=2, order=ORDERS[0], tri=False, scaled=True, kind='plain', keys=('c',))],
      [dict(n=2, order=ORDERS[0], tri=t, scaled=s, kind='plain', keys=('c',)) for t in (False, True) for s in (False, True)]),
    H('fails', fails, [dict(what=w) for w in ('key', 'columns', 'file')]),
]
