"""Shared pieces of the harnesses."""


def atoms_of(E, pos, types=None, ids=None):
    Atom = E.mod('core').Atom
    out = []
    for i, p in enumerate(pos):
        a = Atom(pos=list(p), id=(ids[i] if ids else i + 1), type=(types[i] if types else 1))
        a.loc = i
        out.append(a)
    return out


def system(E, box, pos, types=None, ids=None):
    """system without ghost replication (public set_atoms of the C++ class)"""
    core = E.mod('core')
    s = core.System()
    s.box = box
    s.set_atoms(atoms_of(E, pos, types, ids))
    return s


def ortho_box(a, b, c):
    return [[a, 0, 0], [0, b, 0], [0, 0, c]]


def small_system(E, box, pos, types=None, ids=None, reps=1):
    """system with periodic copies (as the atoms property makes them for less than 200 atoms, but only `reps` on each side)"""
    core = E.mod('core')
    s = core.System()
    s.box = box
    s.set_atoms(s.repeat((reps, reps, reps), atoms=atoms_of(E, pos, types, ids), ghost=True, scale_box=True))
    return s
