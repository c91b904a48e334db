import sys; sys.path.insert(0, "/verif/tools")
from bugs2 import HEAD, SYS, CORE, ATOM
LMP = 'src/pyscal/formats/lammps.py'
VASP = 'src/pyscal/formats/vasp.py'
TRJ = 'src/pyscal/trajectory.py'
CRY = 'src/pyscal/crystal_structures.py'
ROU = 'src/pyscal/routines.py'
TMP = 'import os, tempfile, shutil\nD = tempfile.mkdtemp()\nimport atexit\natexit.register(shutil.rmtree, D)\n'
BUGS = {}
BUGS['c10-mixed-added'] = dict(property='C10', needs='add_atoms with a list in which a copy precedes a real atom, to a system without copies',
    what_it_breaks='the added real atom is put among the copies, and the copy is returned in its place',
    edits=[(SYS, """            if(atomitos[i].ghost==0){
                real_atoms.emplace_back(atomitos[i]);""", """            if(atoms[i].ghost==0){
                real_atoms.emplace_back(atomitos[i]);""")],
    demo=HEAD + """
s = pc.System(); s.box = [[5, 0, 0], [0, 5, 0], [0, 0, 5]]
s.set_atoms([pc.Atom(pos=[i, 0, 0], id=i+1, type=1) for i in range(4)])
g = pc.Atom(pos=[6, 0, 0], id=9, type=1); g.ghost = 1
s.add_atoms([g, pc.Atom(pos=[2, 2, 2], id=7, type=2)])
check(s.natoms == 5, "number of atoms")
check([a.id for a in s.atoms] == [1, 2, 3, 4, 7], "atoms %s" % [a.id for a in s.atoms])
""")

BUGS['c23-first-inverse'] = dict(property='C23', needs='two triclinic boxes one after the other in the same system',
    what_it_breaks='distances use the inverse of the first triclinic box',
    edits=[(SYS, """            rotinv[i][j] = drotinv[i][j];""", """            if ((triclinic == 0) || (i <= j)) rotinv[i][j] = drotinv[i][j];""")],
    demo=HEAD + """
def d(boxes):
    s = pc.System()
    for b in boxes:
        s.box = b
    s.set_atoms([pc.Atom(pos=[0.5, 0.5, 0.5], id=1, type=1), pc.Atom(pos=[8.5, 0.5, 0.5], id=2, type=1)])
    return s.get_distance(s.get_atom(0), s.get_atom(1))
a = [[20, 0, 0], [1, 20, 0], [0, 0, 20]]
b = [[10, 0, 0], [1, 10, 0], [0, 0, 10]]
check(abs(d([b]) - 2) < 1e-9, "one box")
check(abs(d([a, b]) - 2) < 1e-9, "another box before: %f" % d([a, b]))
""")

BUGS['c31-cut-volumes'] = dict(property='C31', needs='atoms of the type asked for that are not all of one volume',
    what_it_breaks='volumes are cut off instead of rounded before they are compared',
    edits=[('src/pyscal/misc.py', """vols = np.round(vols, decimals=precision)""", """vols = np.floor(vols*10**precision)/10**precision""")],
    demo=HEAD + """
import os, tempfile, shutil
import pyscal.misc as pm
d = tempfile.mkdtemp()
try:
    atoms, box = pcs.make_crystal("bcc", lattice_constant=3.01, repetitions=[4, 4, 4])
    s = pc.System(); s.box = box; s.atoms = atoms
    f = os.path.join(d, "x.dump")
    s.to_file(f)
    r = pm.compare_atomic_env(f, format="lammps-dump", atomtype=1, print_results=False)
    v = round(3.01**3/2, 2)
    check(len(r[0]) == 1 and abs(float(r[0][0]) - v) < 1e-6, "volume %s, %f" % (r[0], v))
finally:
    shutil.rmtree(d)
""")
