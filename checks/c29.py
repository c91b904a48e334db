"""C29: energies and composition."""
import os
import sys
import types

from engine.harness import H
from .c27 import SPECIES, ase_of
from .common import atoms_of, ortho_box

PROPERTY = dict(
    title='Energies reach the right atoms and are averaged over neighbors; compositions',
    statement='calculate_energy hands the system, species, potential and mass to LAMMPS and stores for every atom the energy that LAMMPS gives for its id, in whatever '
              'order LAMMPS holds the atoms; the averaged energy is the mean over the atom and its neighbors, periodic copies counting with the energy of the '
              'atom that they are copies of.  Positions, ids, types and neighbors stay as they were and no file is left behind.  get_concentration gives for '
              'every type the fraction of the atoms of that type.',
    quantifier=dict(over=['inputs', 'configurations'], text='all energies, orders of atoms in LAMMPS, neighborhoods and types'),
    why_tests_cant='No test covers these methods, as LAMMPS is not installed where the tests run.',
    anchors=dict(files=['src/pyscal/core.py', 'src/pyscal/routines.py', 'src/pyscal/traj_process.py'],
                 mechanism=[dict(name='System.calculate_energy', where='core.py'), dict(name='get_energy_atom', where='routines.py'),
                            dict(name='System.get_concentration', where='core.py')],
                 observe_at=['System.calculate_energy', 'Atom.energy', 'Atom.avg_energy', 'System.get_concentration']))

BOUNDS = '2 to 4 atoms, on a line with or without periodic copies, symbolic energies, all or several orders of the atoms in LAMMPS, up to 3 types'
OUTSIDE = 'LAMMPS, which is a stand-in that gives symbolic energies; the file that it reads, which is written by ASE'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'LAMMPS takes ids in the order of the atoms in the file']


class Lammps:
    """stand-in: records commands, gives energies[k] for the atom with id ids[k]"""
    last = None
    energies = ids = ()

    def __init__(self, *a, **k):
        self.commands = []
        type(self).last = self

    def command(self, c):
        self.commands.append(c)
        if c.startswith('read_data'):
            self.file = c.split()[1]
            self.there = os.path.exists(self.file)

    def commands_list(self, cs):
        for c in cs:
            self.command(c)

    def extract_compute(self, *a):
        return list(self.energies)

    def extract_atom(self, *a):
        return list(self.ids)

    def get_natoms(self):
        return len(self.ids)

    def close(self):
        pass


class installed:
    """the stand-in can be imported and files go to a scratch directory"""

    def __init__(self, E, cls):
        self.E, self.m = E, types.ModuleType('lammps')
        self.m.lammps = cls
        E.stubs = getattr(E, 'stubs', {})
        E.stubs['lammps'] = self.m

    def __enter__(self):
        self.old, self.cwd = sys.modules.get('lammps'), os.getcwd()
        sys.modules['lammps'] = self.m
        os.chdir(self.E.tmpdir())

    def __exit__(self, *a):
        os.chdir(self.cwd)
        if self.old is None:
            del sys.modules['lammps']
        else:
            sys.modules['lammps'] = self.old


def energy(E, n, method, small=False, averaged=True, asstring=False):
    cls = type('lammps', (Lammps,), {})
    place = installed(E, cls)
    ase = ase_of(E)
    if not E.concrete:
        write = ase.io.write

        def touching(path, obj, **k):
            write(path, obj, **k)
            open(path, 'w').close()
        ase.io.write = touching
    core = E.mod('core')
    L = 16
    xs = [E.const(1), E.real('x', 2, 2.5), E.const(4), E.const(9)][:n]
    pos = [[x, 2, 2] for x in xs]
    tp = [1] * n if asstring else [1, 2, 1, 2][:n]
    if method == 'none':
        # enough atoms for the adaptive method, at fixed positions
        pos = [[E.const(3 * i + ((7 * i + 3 * j + k) % 5) / 16), E.const(3 * j + ((i + 3 * k) % 4) / 16), E.const(3 * k + ((2 * i + j) % 3) / 16)]
               for i in range(3) for j in range(3) for k in range(2)]
        n, tp = len(pos), [1 + i % 2 for i in range(len(pos))]
    s = core.System()
    s.box = ortho_box(9, 9, 6) if method == 'none' else ortho_box(L, 6, 6)
    atoms = atoms_of(E, pos, tp)
    if small:
        s.set_atoms(s.repeat((1, 0, 0), atoms=atoms, ghost=True, scale_box=True))
    else:
        s.set_atoms(atoms)
    if method == 'cutoff':
        s.find_neighbors(method='cutoff', cutoff=5)
    elif method == 'cells':
        s.find_neighbors(method='cutoff', cutoff=2.75)
    es = [E.real('e%d' % i, -9, 1) for i in range(n)]
    order = E.choice('order', [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]])
    cls.energies = [es[i] for i in order]
    cls.ids = [i + 1 for i in order]
    before = None if method == 'none' else [sorted(s.get_atom(i).neighbors) for i in range(n)]
    species = 'Fe' if asstring else ['Fe', 'Al']
    with place:
        s.calculate_energy(species=species, pair_style='lj/cut 5', pair_coeff='* * 1 1', mass=55.5, averaged=averaged)
        left = os.listdir('.')
    E.check(not left, 'files left behind: %s' % left)
    lmp = cls.last
    E.check(lmp.there, 'LAMMPS reads the file of the system')
    E.check('pair_style lj/cut 5' in lmp.commands and 'pair_coeff * * 1 1' in lmp.commands, 'the potential is passed on')
    mass = [c.split() for c in lmp.commands if c.startswith('mass')]
    E.check(len(mass) == 1 and abs(float(mass[0][2]) - 55.5) < 1e-5, 'the mass is passed on: %s' % mass)
    for i in range(n):
        a = s.get_atom(i)
        E.eq(a.energy, es[i], 'energy of atom %d' % i)
        E.check(a.id == i + 1 and a.type == tp[i], 'id or type of atom %d' % i)
        E.eqs(a.pos, pos[i], 'position of atom %d' % i)
        nb = list(a.neighbors)
        if before is not None:
            E.check(sorted(nb) == before[i], 'neighbors of atom %d changed' % i)
            if method == 'cutoff':
                E.check(len(nb) > 0, 'neighbors of atom %d' % i)
        elif averaged:
            E.check(len(nb) > 0, 'neighbors of atom %d are found to average over' % i)
        if averaged:
            E.eq(a.avg_energy, E.div(es[i] + sum(es[j % n] for j in nb), E.const(len(nb) + 1)), 'averaged energy of atom %d' % i)
    E.done()


def refused(E):
    cls = type('lammps', (Lammps,), {'energies': [0.0], 'ids': [1]})
    place = installed(E, cls)
    if not E.concrete:
        ase = ase_of(E)
        write = ase.io.write

        def touching(path, obj, **k):
            write(path, obj, **k)
            open(path, 'w').close()
        ase.io.write = touching
    s = E.mod('core').System()
    s.box = ortho_box(6, 6, 6)
    s.set_atoms(atoms_of(E, [[E.real('x', 1, 2), 1, 1]]))
    style, coeff = E.choice('given', [(None, '* * 1 1'), ('lj/cut 5', None)])
    with place:
        try:
            s.calculate_energy(species=['Fe'], pair_style=style, pair_coeff=coeff)
            ok = False
        except ValueError:
            ok = True
    E.check(ok, 'an incomplete potential is refused')
    E.done()


def concentration(E, n, kinds, ghosts=False):
    s = E.mod('core').System()
    s.box = ortho_box(6, 6, 6)
    tp = [E.choice('type%d' % i, kinds) for i in range(n)]
    atoms = atoms_of(E, [[E.real('x%d' % i, 0, 6), 1, 1] for i in range(n)], tp)
    s.set_atoms(s.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True) if ghosts else atoms)
    c = s.get_concentration()
    E.check(sorted(c) == sorted(str(t) for t in set(tp)), 'types in the composition: %s' % sorted(c))
    for t in set(tp):
        E.eq(c[str(t)], E.frac(tp.count(t), n), 'concentration of type %d' % t)
    E.done()


HARNESSES = [
    H('energy', energy, [dict(n=3, method='cutoff', small=True), dict(n=3, method='none'), dict(n=4, method='cells'), dict(n=3, method='cells', small=True, asstring=True),
                         dict(n=2, method='cutoff', averaged=False)],
      [dict(n=n, method=m, small=s, averaged=a) for n in (2, 3, 4) for m in ('cutoff', 'cells', 'none') for s in (False, True) for a in (True, False)]),
    H('refused', refused, [{}]),
    H('concentration', concentration, [dict(n=3, kinds=[1, 2, 5]), dict(n=2, kinds=[3, 7], ghosts=True)], [dict(n=5, kinds=[1, 2, 5]), dict(n=4, kinds=[3, 7], ghosts=True)]),
]
