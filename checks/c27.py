"""C27: conversion to and from ASE and mdtraj objects, POSCAR files."""
import os
import types

import numpy as np

from engine.harness import H
from .common import atoms_of, small_system

PROPERTY = dict(
    title='Conversion to and from ASE, mdtraj and POSCAR keeps every atom and its species',
    statement='to_ase gives the atoms of the system in order, each with its position, the species that its type stands for or that it was read with, the box as '
              'cell and periodic boundaries, without ghost atoms, and leaves the system as it was, so that a later conversion can use other species.  Systems read '
              'from ASE or mdtraj objects have the cell as box, the atoms in order with ids from 1, equal types exactly for equal species, numbered from 1 in '
              'alphabetical order, and the species stored.  POSCAR files hold the box and every atom once, grouped by type in ascending order with the right '
              'numbers; formats written by ASE read back to the same atoms.',
    quantifier=dict(over=['inputs', 'configurations'], text='all boxes, positions, types and species'),
    why_tests_cant='The tests convert one crystal of one species and check the number of atoms.',
    anchors=dict(files=['src/pyscal/formats/ase.py', 'src/pyscal/formats/vasp.py', 'src/pyscal/formats/mdtraj.py', 'src/pyscal/traj_process.py', 'src/pyscal/core.py'],
                 mechanism=[dict(name='convert_snap, read_snap', where='formats/ase.py'), dict(name='write_poscar', where='formats/vasp.py'),
                            dict(name='read_snap', where='formats/mdtraj.py'), dict(name='write_file, read_file', where='traj_process.py')],
                 observe_at=['System.to_ase', 'System.to_file', 'System.read_inputfile', 'traj_process.read_file', 'Atom.custom']))

BOUNDS = '1 to 5 atoms at symbolic positions in skew boxes with three symbolic numbers, all assignments of up to 3 types or species'
OUTSIDE = ('ASE and mdtraj themselves: in the symbolic run ASE objects are records of what they are given and ASE writes and reads what it is given (the real ASE is used '
           'when inputs are replayed); systems whose types are not numbered from 1')
ASSUMPTIONS = ['ASE reads back what it wrote', 'a number written with %1.14f and read back differs by at most half of the last decimal']


class Atom:
    def __init__(self, symbol, position):
        self.symbol, self.position = str(symbol), list(position)


class Atoms:
    def __init__(self, symbols=(), positions=(), cell=None, pbc=None):
        self.symbols = [str(x) for x in symbols]
        self.pos = [list(p) for p in positions]
        self.cell = cell
        self.pbc = pbc

    def append(self, atom):
        self.symbols.append(atom.symbol)
        self.pos.append(list(atom.position))

    @property
    def positions(self):
        return np.array(self.pos, dtype=object)

    def get_positions(self):
        return self.positions

    def get_chemical_symbols(self):
        return list(self.symbols)

    def get_cell(self):
        return self.cell

    def get_pbc(self):
        return self.pbc

    def __len__(self):
        return len(self.symbols)

    def copy(self):
        return Atoms(self.symbols, self.pos, self.cell, self.pbc)


def ase_of(E):
    if E.concrete:
        import ase
        import ase.io
        return ase
    files = {}

    def write(path, obj, format=None, **k):
        files[os.path.abspath(path)] = obj.copy()

    def read(path, format=None, **k):
        return files[os.path.abspath(path)].copy()
    m, io = types.ModuleType('ase'), types.ModuleType('ase.io')
    m.Atom, m.Atoms, m.io, io.write, io.read = Atom, Atoms, io, write, read
    E.stubs['ase'], E.stubs['ase.io'] = m, io
    return m


def numbers(E, n, extra=True):
    c = E.const
    box = [[E.real('b0', 4, 9), c(0.5), 0], [E.real('b1', -1, 1), 7, c(-0.25)], [c(0.75), 0, E.real('b2', 4, 9)]]
    pos = [[E.real('p%d%d' % (i, k), -20, 20) for k in range(3)] for i in range(n)]
    return box, pos


def assigned(E, n, kinds):
    return [E.choice('kind%d' % i, kinds) for i in range(n)]


def rows(E, got, want, what, tol=1e-7):
    got = [list(r) for r in got]
    E.check(len(got) == len(want), '%s: %d instead of %d' % (what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        E.eqs(g, w, '%s %d' % (what, i), tol)


SPECIES = ['Fe', 'Al', 'Cu']


def to_ase(E, n, kinds, ghosts=False, stored=False):
    ase_of(E)
    core = E.mod('core')
    box, pos = numbers(E, n)
    tp = assigned(E, n, list(range(1, kinds + 1)))
    E.assume(set(tp) == set(range(1, max(tp) + 1)))
    names = SPECIES[:max(tp)]
    atoms = atoms_of(E, pos, tp)
    if stored:
        for a, t in zip(atoms, tp):
            a.custom = {'species': SPECIES[t - 1]}
    if ghosts:
        s = core.System()
        s.box = box
        s.set_atoms(s.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True))
    else:
        s = core.System()
        s.box = box
        s.set_atoms(atoms)
    for k in range(2):
        obj = s.to_ase(None if stored else names)
        E.check(list(obj.get_chemical_symbols()) == [SPECIES[t - 1] if stored else names[t - 1] for t in tp], 'species in conversion %d: %s' % (k, obj.get_chemical_symbols()))
        rows(E, obj.positions, pos, 'position of atom')
        rows(E, obj.cell, box, 'cell vector')
        E.check([bool(x) for x in obj.pbc] == [True] * 3, 'periodic boundaries')
        names = names[1:] + ['Ni']
    now = s.atoms
    E.check([a.type for a in now] == tp and [a.id for a in now] == list(range(1, n + 1)), 'types or ids after the conversion')
    E.check(all(('species' in a.custom) == stored for a in now), 'the conversion stored species')
    rows(E, [a.pos for a in now], pos, 'position after conversion')
    rows(E, s.box, box, 'box after conversion')
    if not stored:
        try:
            s.to_ase(SPECIES + ['Ni'])
            ok = False
        except ValueError:
            ok = True
        E.check(ok, 'more species than types are refused')
        try:
            s.to_ase(None)
            ok = False
        except ValueError:
            ok = True
        E.check(ok, 'missing species are refused')
    E.done()


def check_read(E, atoms, box, cell, pos, names, what, tol=1e-7):
    order = sorted(set(names))
    E.check(len(atoms) == len(pos), what + ': number of atoms')
    rows(E, box, cell, what + ': box vector', tol)
    rows(E, [a.pos for a in atoms], pos, what + ': position of atom', tol)
    E.check([a.id for a in atoms] == list(range(1, len(pos) + 1)), what + ': ids')
    E.check([a.type for a in atoms] == [order.index(x) + 1 for x in names], what + ': types %s of species %s' % ([a.type for a in atoms], names))
    E.check([str(a.custom['species']) for a in atoms] == list(names), what + ': species stored')


def from_object(E, n, kind):
    ase = ase_of(E)
    box, pos = numbers(E, n)
    names = assigned(E, n, SPECIES)
    if kind == 'ase':
        obj = ase.Atoms(names, positions=pos, cell=box, pbc=[1, 1, 1])
    else:
        obj = types.SimpleNamespace(unitcell_vectors=[box], xyz=[pos],
                                    topology=types.SimpleNamespace(atoms=[types.SimpleNamespace(name=x) for x in names]))
    ptp = E.mod('traj_process')
    atoms, rbox = ptp.read_file(obj, format=kind)
    check_read(E, atoms, rbox, box, pos, names, kind)
    if kind == 'ase':
        s = E.mod('core').System()
        s.box = rbox
        s.set_atoms(atoms)
        back = s.to_ase(None)
        E.check(list(back.get_chemical_symbols()) == names, 'species of the round trip')
        rows(E, back.positions, pos, 'position in the round trip')
        rows(E, back.cell, box, 'cell in the round trip')
        rows(E, obj.positions, pos, 'position in the object read')
    E.done()


def through_file(E, n, format, kinds=2):
    """written and read by ASE"""
    ase_of(E)
    core = E.mod('core')
    box, pos = numbers(E, n)
    tp = assigned(E, n, list(range(1, kinds + 1)))
    E.assume(set(tp) == set(range(1, max(tp) + 1)))
    names = SPECIES[:max(tp)]
    s = core.System()
    s.box = box
    s.set_atoms(atoms_of(E, pos, tp))
    path = os.path.join(E.tmpdir(), 'file.' + format)
    s.to_file(path, format=format, species=names)
    atoms, rbox = E.mod('traj_process').read_file(path, format=format)
    check_read(E, atoms, rbox, box, pos, [names[t - 1] for t in tp], format, 1e-5)
    E.done()


def poscar(E, n, kinds, ghosts=False):
    """the plain POSCAR writer"""
    ase_of(E)
    core = E.mod('core')
    box, pos = numbers(E, n)
    tp = assigned(E, n, kinds)
    s = core.System()
    s.box = box
    atoms = atoms_of(E, pos, tp)
    s.set_atoms(s.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True) if ghosts else atoms)
    path = os.path.join(E.tmpdir(), 'POSCAR')
    s.to_file(path, format='poscar')
    with open(path) as f:
        lines = f.read().split('\n')
    E.check(float(lines[1]) == 1, 'scale in the file')
    num = lambda l: [E.parse(x) for x in l.split()]
    rows(E, [num(x) for x in lines[2:5]], box, 'box vector in the file', 1e-9)
    order = sorted(set(tp))
    E.check([int(x) for x in lines[5].split()] == [tp.count(t) for t in order], 'numbers of atoms of each type')
    E.check(lines[6].strip() == 'Cartesian', 'kind of coordinates')
    rest = [x for x in lines[7:] if x.strip()]
    rows(E, [num(x) for x in rest], [pos[i] for t in order for i in range(n) if tp[i] == t], 'position in the file', 1e-9)
    E.done()


HARNESSES = [
    H('to_ase', to_ase, [dict(n=3, kinds=3), dict(n=2, kinds=2, ghosts=True), dict(n=3, kinds=2, stored=True)],
      [dict(n=n, kinds=3, ghosts=g, stored=s) for n in (2, 3, 5) for g in (False, True) for s in (False, True)]),
    H('from_object', from_object, [dict(n=3, kind='ase'), dict(n=3, kind='mdtraj')], [dict(n=n, kind=k) for n in (1, 2, 4) for k in ('ase', 'mdtraj')]),
    H('through_file', through_file, [dict(n=3, format='poscar'), dict(n=2, format='extxyz')], [dict(n=n, format=f, kinds=3) for n in (2, 4) for f in ('poscar', 'extxyz', 'xsf')]),
    H('poscar', poscar, [dict(n=3, kinds=[1, 2, 3]), dict(n=2, kinds=[5, 2], ghosts=True)], [dict(n=5, kinds=[1, 2, 3]), dict(n=4, kinds=[7, 2], ghosts=True)]),
]
