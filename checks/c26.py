"""C26: trajectories of several snapshots."""
import os
import random

from engine.harness import H
from .c24 import ORDERS, compare, snapshot

PROPERTY = dict(
    title='Slices of a trajectory are the snapshots of the file, in order and unmixed',
    statement='A Trajectory has as many slices as the file has complete snapshots, and every way to select slices - an index, a negative index, a Python slice, '
              'sums of selections, iterating upwards, downwards or at random - gives exactly those snapshots in that order, as systems, dictionaries or '
              'a file.  Data that was loaded and changed is what is written until it is unloaded, with the time step, box and columns of its snapshot; other '
              'slices, the operands of sums and the file itself stay as they were.  split_trajectory gives one file for each snapshot with its lines.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all values in the file, numbers of slices, selections, and orders of loading, changing, writing and unloading'),
    why_tests_cant='One test opens one trajectory and looks at one number of its first slice; other slices, sums, iteration and changed data are never compared.',
    anchors=dict(files=['src/pyscal/trajectory.py', 'src/pyscal/traj_process.py', 'src/pyscal/formats/lammps.py'],
                 mechanism=[dict(name='Trajectory', where='trajectory.py'), dict(name='Timeslice', where='trajectory.py'),
                            dict(name='split_snaps', where='formats/lammps.py')],
                 observe_at=['Trajectory', 'Timeslice.to_system', 'Timeslice.to_dict', 'Timeslice.to_file', 'Trajectory.iter', 'Trajectory.load', 'split_trajectory']))

BOUNDS = '1 to 4 slices of 1 to 3 atoms with symbolic values in every line, 0 or 3 lines of an incomplete slice at the end, two trajectories in sums'
OUTSIDE = 'files whose number of atoms changes; columns that are not numbers; the text of numbers (a symbolic number is written and read as one token)'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'reading the decimal text of a number gives that number']


def make(E, n, nb, tag='', order=ORDERS[4], tri=False, stray=0, name='traj.dump'):
    blocks = [snapshot(E, n, order, tri, False, '%sb%d' % (tag, b), timestep=100 * b + 5) for b in range(nb)]
    path = os.path.join(E.tmpdir(), tag + name)
    lines = [x for b in blocks for x in b[0]]
    with open(path, 'w') as f:
        f.writelines(lines + blocks[0][0][:stray])
    return path, blocks


def text(path):
    with open(path) as f:
        return f.read()


def lines_of(blocks, order):
    return ''.join(x for b in order for x in blocks[b][0])


def systems(E, slices, blocks, order, what):
    got = slices.to_system()
    E.check(len(got) == len(order), '%s: %d systems instead of %d' % (what, len(got), len(order)))
    for s, b in zip(got, order):
        lines, box, atoms = blocks[b]
        compare(E, box, atoms, s.box, s.atoms, '%s, slice %d' % (what, b))


def dictionary(E, d, block, tri, what, order=ORDERS[4]):
    lines, box, atoms = block
    for r, k in zip(d['box'], range(5, 8)):
        E.eqs(r, [E.parse(x) for x in lines[k].split()], what + ': bounds')
    E.check(sorted(d['atoms']) == sorted(order.split()), what + ': columns')
    for c in order.split():
        E.check(len(d['atoms'][c]) == len(atoms), what + ': length of a column')
        for v, a in zip(d['atoms'][c], atoms):
            E.eq(v, a[c], '%s: column %s' % (what, c))


def file_as(E, path, blocks, order, what, columns=ORDERS[4]):
    """the file holds these snapshots (values, not the text)"""
    ls = text(path).split('\n')
    if ls[-1] == '':
        ls.pop()
    size = len(blocks[0][0])
    E.check(len(ls) == size * len(order), '%s: %d lines instead of %d' % (what, len(ls), size * len(order)))
    for p, b in enumerate(order):
        got, (lines, box, atoms) = ls[p * size:(p + 1) * size], blocks[b]
        for k in (0, 1, 2, 3, 4):
            E.check(got[k].split() == lines[k].split(), '%s: line %d of slice %d' % (what, k, b))
        for k in (5, 6, 7):
            E.eqs([E.parse(x) for x in got[k].split()], [E.parse(x) for x in lines[k].split()], '%s: bounds of slice %d' % (what, b))
        head = got[8].split()
        E.check(head[:2] == ['ITEM:', 'ATOMS'] and sorted(head[2:]) == sorted(columns.split()), '%s: columns of slice %d' % (what, b))
        for line, a in zip(got[9:], atoms):
            for c, v in zip(head[2:], line.split()):
                E.eq(E.parse(v), a[c], '%s: %s in slice %d' % (what, c, b))


def select(E, n, nb, stray=0, tri=False):
    """every index and slice"""
    path, blocks = make(E, n, nb, stray=stray, tri=tri)
    T = E.mod('trajectory')
    t = T.Trajectory(path)
    E.check(t.nblocks == nb and t.natoms == n, 'number of slices or atoms')
    before = text(path)
    out = os.path.join(E.tmpdir(), 'out.dump')
    every = list(range(nb))
    sel = E.choice('selection', [i for i in range(-nb, nb)] + [slice(None), slice(1, None), slice(None, None, -1), slice(0, nb, 2), slice(-1, None)])
    order = every[sel] if isinstance(sel, slice) else [every[sel]]
    ts = t[sel]
    systems(E, ts, blocks, order, 'selection')
    for d, b in zip(ts.to_dict(), order):
        dictionary(E, d, blocks[b], tri, 'dictionary of slice %d' % b)
    ts.to_file(out)
    E.check(text(out) == lines_of(blocks, order), 'written lines differ from those of the file')
    t[0].to_file(out, mode='a')
    E.check(text(out) == lines_of(blocks, order + [0]), 'appended lines')
    E.check(text(path) == before, 'the trajectory itself was changed')
    E.check(not any(t.loadlist), 'a slice stayed loaded')
    E.done()


def sums(E, n, nb):
    """adding selections of two trajectories"""
    path, blocks = make(E, n, nb, 'one')
    path2, blocks2 = make(E, n, nb, 'two')
    T = E.mod('trajectory')
    t, u = T.Trajectory(path), T.Trajectory(path2)
    both = blocks + blocks2
    kind = E.choice('sum', ['two', 'three', 'sum', 'twice', 'self'])
    a, b, c = t[0], u[nb - 1], t[1:]
    oa, ob, oc = [0], [2 * nb - 1], list(range(1, nb))
    if kind == 'two':
        s, order = a + b, oa + ob
    elif kind == 'three':
        s, order = a + b + c, oa + ob + oc
    elif kind == 'sum':
        s, order = sum([c, a, b]), oc + oa + ob
    elif kind == 'twice':
        s, order = a + b, oa + ob
        s, order = a + c, oa + oc
    else:
        s, order = b + b, ob + ob
    out = os.path.join(E.tmpdir(), 'out.dump')
    s.to_file(out)
    E.check(text(out) == lines_of(both, order), 'lines of the sum')
    for d, i in zip(s.to_dict(), order):
        dictionary(E, d, both[i], False, 'dictionary of slice %d' % i)
    for x, o in ((a, oa), (b, ob), (c, oc)):
        x.to_file(out)
        E.check(text(out) == lines_of(both, o), 'adding slices changed an operand')
    systems(E, s, both, order, 'sum')
    E.done()


def iterate(E, n, nb):
    path, blocks = make(E, n, nb)
    t = E.mod('trajectory').Trajectory(path)
    method = E.choice('method', ['ascending', 'descending', 'random', 'none'])
    k = E.choice('slices', [None] + list(range(nb + 1)))
    want = list(range(nb))
    if method == 'descending':
        want = want[::-1]
    m = nb if k is None else k
    if method == 'none':
        try:
            list(t.iter(method=method))
            ok = False
        except ValueError:
            ok = True
        E.check(ok, 'unknown methods are refused')
        return E.done()
    random.seed(3)
    got = [int(x) for x in t.iter(method=method, n_slices=k)]
    E.check(len(got) == m and len(set(got)) == m, 'number of slices: %s' % got)
    E.check(set(got) <= set(want), 'slices that do not exist: %s' % got)
    if method != 'random':
        E.check(got == want[:m], 'order of slices: %s' % got)
    random.seed(3)
    for b, s in zip(got, t.iter(method=method, n_slices=k, output='system')):
        lines, box, atoms = blocks[b]
        compare(E, box, atoms, s.box, s.atoms, 'slice %d' % b)
    E.done()


def change(E, n, nb, tri=False, order=ORDERS[4], steps=4):
    """a history of loading, changing, unloading and writing"""
    path, blocks = make(E, n, nb, tri=tri, order=order)
    t = E.mod('trajectory').Trajectory(path)
    state = [list(b) for b in blocks]
    loaded = [False] * nb
    before = text(path)
    out = os.path.join(E.tmpdir(), 'out.dump')
    for step in range(steps):
        b = E.choice('slice', list(range(min(nb, 2))))
        op = E.choice('step', ['load', 'change', 'unload', 'dict'] if step else ['load', 'dict'])
        if op == 'load':
            t.load(b)
            loaded[b] = True
            state[b][2] = [dict(a) for a in blocks[b][2]]
        elif op == 'unload':
            t.unload(b)
            loaded[b] = False
            state[b][2] = blocks[b][2]
        elif op == 'change':
            if not loaded[b]:
                continue
            v = E.real('new%d' % step, -9, 9)
            t.data[b]['atoms']['x'][n - 1] = v
            state[b][2][n - 1]['x'] = v
        else:
            for k, d in enumerate(t[:].to_dict()):
                dictionary(E, d, (blocks[k][0], blocks[k][1], state[k][2]), tri, 'dictionary of slice %d' % k, order)
        E.check([bool(x) for x in t.loadlist] == loaded, 'slices that are loaded')
    t[:].to_file(out)
    file_as(E, out, [tuple(x) for x in state], list(range(nb)), 'written file', order)
    E.check(text(path) == before, 'the trajectory itself was changed')
    for k in range(nb):
        if not loaded[k]:
            E.check(t.data[k] is None, 'data of a slice that is not loaded')
    E.done()


def split(E, n, nb, stray=0, tri=False):
    path, blocks = make(E, n, nb, stray=stray, tri=tri)
    ptp = E.mod('traj_process')
    before = text(path)
    files = ptp.split_trajectory(path)
    E.check(len(files) == nb and len(set(files)) == nb, '%d files for %d slices' % (len(files), nb))
    for b, f in enumerate(files):
        E.check(text(f) == lines_of(blocks, [b]), 'lines of file %d' % b)
        atoms, box = ptp.read_file(f)
        compare(E, blocks[b][1], blocks[b][2], box, atoms, 'file %d' % b)
    E.check(text(path) == before, 'the trajectory itself was changed')
    E.done()


HARNESSES = [
    H('select', select, [dict(n=2, nb=3, stray=3), dict(n=1, nb=2)], [dict(n=n, nb=b, stray=s, tri=t) for n in (1, 3) for b in (1, 2, 4) for s in (0, 3) for t in (False, 'positive')]),
    H('sums', sums, [dict(n=2, nb=3)], [dict(n=n, nb=b) for n in (1, 3) for b in (2, 4)]),
    H('iterate', iterate, [dict(n=1, nb=2)], [dict(n=2, nb=b) for b in (1, 2, 4)]),
    H('change', change, [dict(n=2, nb=2, steps=3), dict(n=1, nb=2, tri='positive', order=ORDERS[1], steps=3)],
      [dict(n=n, nb=b, tri=t, order=o, steps=4) for n in (1, 3) for b in (1, 3) for t, o in ((False, ORDERS[4]), ('positive', ORDERS[1]))]),
    H('split', split, [dict(n=2, nb=3, stray=3)], [dict(n=n, nb=b, stray=s, tri=t) for n in (1, 3) for b in (1, 4) for s in (0, 3) for t in (False, 'positive')]),
]
