import sys; sys.path.insert(0, "/verif/tools")
from bugs2 import HEAD, SYS, CORE, ATOM
LMP = 'src/pyscal/formats/lammps.py'
VASP = 'src/pyscal/formats/vasp.py'
TRJ = 'src/pyscal/trajectory.py'
CRY = 'src/pyscal/crystal_structures.py'
ROU = 'src/pyscal/routines.py'
TMP = 'import os, tempfile, shutil\nD = tempfile.mkdtemp()\nimport atexit\natexit.register(shutil.rmtree, D)\n'
BUGS = {}
BUGS['c11-third-rep'] = dict(property='C11', needs='different numbers of repetitions along the second and third vector',
    what_it_breaks='the scaled box has the height of the second number of repetitions',
    edits=[(CORE, '        zs = 2*reps[2] + 1\n', '        zs = 2*reps[1] + 1\n')],
    demo=HEAD + '''
s = system([[4., 0, 0], [0, 5., 0], [0, 0, 6.]], np.random.RandomState(0).rand(200, 3)*4)
a = s.repeat((1, 2, 1))
check(len(a) == 45*200, "atoms")
check(np.allclose(np.diag(np.array(s.box)), [12, 25, 18]), "box %r" % (s.box,))
''')
BUGS['c12-keeps-earlier'] = dict(property='C12', needs='an atom within the tolerance of two later ones that are not that close to each other',
    what_it_breaks='of atoms that are images of each other the earlier is kept, and more may go than should',
    edits=[(CORE, '                    if dist <= dtol:\n                        pairs.append(i) \n', '                    if dist <= dtol:\n                        pairs.append(j) \n')],
    demo=HEAD + '''
p = [[x*3+.5, y*3+.5, z*3+.5] for x in range(6) for y in range(6) for z in range(6)]
p += [[0.55, 0.5, 0.5]]
s = system(np.diag([18., 18, 18]).tolist(), p)
s.remap_atoms(dtol=0.1)
ids = sorted(a.id for a in s.atoms)
check(ids == list(range(2, 218)), "ids")
''')
BUGS['c13-bcc-mean'] = dict(property='C13', needs='adaptive CNA of a strained or noisy bcc crystal',
    what_it_breaks='the adaptive cutoff for bcc is the mean of the first shell instead of both shells',
    edits=[(SYS, '''                for(int i=8 ; i<14; i++){
                    ssum += atoms[ti].temp_neighbors[i].dist;
                }
                atoms[ti].cutoff = 1.207*ssum/14.00;
''', '''                atoms[ti].cutoff = 1.207*ssum/8.00;
''')],
    demo=HEAD + '''
def reference(v):
    v = sorted(v, key=np.linalg.norm)
    d = [np.linalg.norm(x) for x in v]
    def signatures(nb, cut):
        nb = np.array(nb)
        bond = np.linalg.norm(nb[:, None] - nb[None], axis=2) <= cut
        out = []
        for i in range(len(nb)):
            com = [j for j in range(len(nb)) if j != i and bond[i, j]]
            deg = [sum(bond[x, y] for y in com if y != x) for x in com]
            out.append((len(com), sum(deg)//2, max(deg, default=0), min(deg, default=8)))
        return out
    s = signatures(v[:12], 1.207*sum(d[:12])/12)
    if s.count((4, 2, 1, 1)) == 12 or (s.count((4, 2, 1, 1)) == 6 and s.count((4, 2, 2, 0)) == 6) or s.count((5, 5, 2, 2)) == 12:
        return -1
    s = signatures(v[:14], 1.207*(1.1547*sum(d[:8]) + sum(d[8:14]))/14)
    return 3 if s.count((4, 4, 2, 2)) == 6 and s.count((6, 6, 2, 2)) == 8 else 0
np.random.seed(3)
for noise in (0.06, 0.08):
    atoms, box = pcs.make_crystal("bcc", repetitions=[6, 6, 6], noise=noise)
    s = pc.System(); s.box = box; s.atoms = atoms
    s.calculate_cna()
    al = s.atoms
    p = np.array([a.pos for a in al])
    for i, a in enumerate(al):
        v = p - p[i]
        v -= 6*np.round(v/6)
        v = v[[k for k in range(len(p)) if k != i]]
        near = v[np.argsort(np.linalg.norm(v, axis=1))[:20]]
        r = reference(list(near))
        check(r == -1 or r == a.structure, "structure of atom %d: %d %d" % (i, a.structure, r))
''')
BUGS['c15-many-pairs'] = dict(property='C15', needs='nmax of 16 or more',
    what_it_breaks='at most seven pairs are summed, whatever nmax',
    edits=[(SYS, '    for(int i=0; i<nmax/2; i++){\n        csym += temp[i].dist*temp[i].dist;', '    int npairs = min(nmax/2, 7);\n    for(int i=0; i<npairs; i++){\n        csym += temp[i].dist*temp[i].dist;')],
    demo=HEAD + '''
atoms, box = pcs.make_crystal("bcc", repetitions=[6, 6, 6], noise=0.02)
s = pc.System(); s.box = box; s.atoms = atoms
for nmax in (8, 12, 18):
    v = s.calculate_centrosymmetry(nmax=nmax)
    for k in range(0, 432, 50):
        a = s.get_atom(k)
        d = [np.array(s.get_distance(a, s.get_atom(n), vector=True)[1]) for n in a.neighbors]
        check(len(d) == nmax, "neighbors")
        w = sorted(np.sum((x+y)**2) for i, x in enumerate(d) for y in d[:i])
        check(abs(sum(w[:nmax//2]) - v[k]) < 1e-8, "nmax %d" % nmax)
''')
BUGS['c18-weights-of-kept'] = dict(property='C18', needs='Voronoi neighbors with a type filter',
    what_it_breaks='weights are normalised over the neighbors that the filter keeps instead of all faces',
    edits=[(SYS, '                weightsum += pow(facearea[i], alpha);\n', '                if ((filter == 1) && (atoms[ti].type != atoms[neigh[i]].type)) continue;\n                if ((filter == 2) && (atoms[ti].type == atoms[neigh[i]].type)) continue;\n                weightsum += pow(facearea[i], alpha);\n')],
    demo=HEAD + '''
rng = np.random.RandomState(2)
p = rng.rand(250, 3)*[6, 7, 8]
t = rng.randint(1, 3, 250)
s = system([[6., 0, 0], [0, 7., 0], [0, 0, 8.]], p, t)
s.find_neighbors(method="voronoi")
full = [dict(zip(a.neighbors, a.neighbor_weights)) for a in s.atoms]
s.find_neighbors(method="voronoi", filter="type")
for a, f in zip(s.atoms, full):
    for n, w in zip(a.neighbors, a.neighbor_weights):
        check(abs(f[n] - w) < 1e-9, "weight")
''')
BUGS['c18-average-volume'] = dict(property='C18', needs='Voronoi neighbors of two atoms that share more than one face, or self neighbors, in a small box',
    what_it_breaks='averaged volumes leave out neighbors of another type',
    edits=[(SYS, '''            vv += atoms[atoms[ti].neighbors[ci]].volume;
        }
        vv = vv/(double(nn+1));''', '''            if (atoms[atoms[ti].neighbors[ci]].type != atoms[ti].type) { vv += atoms[ti].volume; continue; }
            vv += atoms[atoms[ti].neighbors[ci]].volume;
        }
        vv = vv/(double(nn+1));''')],
    demo=HEAD + '''
rng = np.random.RandomState(2)
s = system([[6., 0, 0], [0, 7., 0], [0, 0, 8.]], rng.rand(250, 3)*[6, 7, 8], rng.randint(1, 3, 250))
s.find_neighbors(method="voronoi")
al = s.atoms
for a in al:
    v = [a.volume] + [al[n].volume for n in a.neighbors]
    check(abs(np.mean(v) - a.avg_volume) < 1e-9, "volume")
''')
BUGS['c19-seven-edges'] = dict(property='C19', needs='a face with more than six relevant edges',
    what_it_breaks='faces with more than six edges are counted as hexagons',
    edits=[(CORE, '                elif ed == 6:\n', '                elif ed >= 6:\n')],
    demo=HEAD + '''
rng = np.random.RandomState(2)
s = system([[6., 0, 0], [0, 7., 0], [0, 0, 8.]], rng.rand(250, 3)*[6, 7, 8])
s.find_neighbors(method="voronoi")
s.calculate_vorovector(edge_cutoff=0., area_cutoff=0.)
seen = 0
for a in s.atoms:
    seen += max(a.face_vertices) > 6
    check(list(a.vorovector) == [sum(n == k for n in a.face_vertices) for k in (3, 4, 5, 6)], "vector")
check(seen > 0, "no face with seven edges")
''')
BUGS['c21-equal-bonds'] = dict(property='C21', needs='four nearest neighbors at different distances',
    what_it_breaks='the cosine is taken over the square of the first bond length',
    edits=[(CORE, '''                modvec2 = np.sqrt(np.sum([x**2 for x in vec2]))
                costheta = np.dot(vec1, vec2)/(modvec1*modvec2)
                costhetasum +=''', '''                modvec2 = modvec1
                costheta = np.dot(vec1, vec2)/(modvec1*modvec2)
                costhetasum +=''')],
    demo=HEAD + '''
rng = np.random.RandomState(2)
s = system([[6., 0, 0], [0, 7., 0], [0, 0, 8.]], rng.rand(250, 3)*[6, 7, 8])
s.find_neighbors(method="number", nmax=4, threshold=5)
s.calculate_angularcriteria()
for a in s.atoms:
    d = [np.array(s.get_distance(a, s.get_atom(n), vector=True)[1]) for n in a.neighbors]
    w = sum((np.dot(x, y)/np.linalg.norm(x)/np.linalg.norm(y) + 1/3)**2 for i, x in enumerate(d) for y in d[:i])
    check(abs(w - a.angular) < 1e-8, "angular")
''')
BUGS['c24-tilt-sum'] = dict(property='C24', needs='a triclinic dump whose tilts xy and xz have the same sign',
    what_it_breaks='the bounds are corrected by the larger of xy and xz instead of their sum',
    edits=[(LMP, '        amax = max([0.0, tilts[0], tilts[1] ,tilts[0]+tilts[1]])\n', '        amax = max([0.0, tilts[0], tilts[1]])\n')],
    demo=HEAD + TMP + '''
xy, xz, yz = 1.0, 2.0, 0.5
with open(D + "/d", "w") as f:
    f.write("ITEM: TIMESTEP\\n0\\nITEM: NUMBER OF ATOMS\\n1\\nITEM: BOX BOUNDS xy xz yz pp pp pp\\n0 13 %f\\n0 10.5 %f\\n0 10 %f\\nITEM: ATOMS id type x y z\\n1 1 1 1 1\\n" % (xy, xz, yz))
s = pc.System(); s.read_inputfile(D + "/d")
check(np.allclose(np.array(s.box), [[10, 0, 0], [xy, 10, 0], [xz, yz, 10]]), "box %r" % (s.box,))
''')
BUGS['c25-rotated-length'] = dict(property='C25', needs='a box whose first vector is not along x',
    what_it_breaks='the length of the first vector of the written box is its x component',
    edits=[(LMP, '    boxx = np.sqrt(np.sum(np.array(box[0])**2))\n', '    boxx = np.abs(box[0][0])\n')],
    demo=HEAD + TMP + '''
b = np.array([[6, 2, 0], [-1, 7, 0], [0, 1, 8.]])
f = np.random.RandomState(1).rand(250, 3)
s = system(b.tolist(), f.dot(b))
s.to_file(D + "/d")
r = pc.System(); r.read_inputfile(D + "/d")
rb = np.array(r.box)
check(np.allclose(rb.dot(rb.T), b.dot(b.T), atol=1e-4), "box")
''')
BUGS['c26-random-repeats'] = dict(property='C26', needs='iterating at random over a trajectory',
    what_it_breaks='slices are drawn with repetition, so that some come twice and others never',
    edits=[(TRJ, '            random.shuffle(slice_list)\n            for i in slice_list[:n_slices]:\n                yield self._yield(i, output)', '            for i in range(min(n_slices, self.nblocks)):\n                yield self._yield(random.choice(slice_list), output)')],
    demo=HEAD + TMP + '''
from pyscal.trajectory import Trajectory
with open(D + "/d", "w") as f:
    for t in range(12):
        f.write("ITEM: TIMESTEP\\n%d\\nITEM: NUMBER OF ATOMS\\n1\\nITEM: BOX BOUNDS pp pp pp\\n0 10\\n0 10\\n0 10\\nITEM: ATOMS id type x y z\\n1 1 1 1 1\\n" % t)
t = Trajectory(D + "/d")
for k in range(5):
    check(sorted(int(i) for i in t.iter(method="random")) == list(range(12)), "slices")
''')
BUGS['c26-loaded-header'] = dict(property='C26', needs='writing a loaded slice whose columns are not only id, type and positions, type before id',
    what_it_breaks='columns of ids and types are written under the names in the other order',
    edits=[(TRJ, '        xdheader = " ".join(xdkeys)\n', '        xdheader = " ".join(sorted(xdkeys))\n')],
    demo=HEAD + TMP + '''
from pyscal.trajectory import Trajectory
with open(D + "/d", "w") as f:
    for t in range(2):
        f.write("ITEM: TIMESTEP\\n%d\\nITEM: NUMBER OF ATOMS\\n2\\nITEM: BOX BOUNDS pp pp pp\\n0 10\\n0 10\\n0 10\\nITEM: ATOMS type id x y z\\n1 7 1 1 1\\n2 8 2 2 2\\n" % t)
t = Trajectory(D + "/d")
t.load(0)
t[0:2].to_file(D + "/e")
u = Trajectory(D + "/e")
for k in range(2):
    s = u[k].to_system()[0]
    check([(a.id, a.type) for a in s.atoms] == [(7, 1), (8, 2)], "ids and types")
''')
BUGS['c27-poscar-groups'] = dict(property='C27', needs='type numbers that are not 1, 2, 3...',
    what_it_breaks='POSCAR files leave out atoms whose type number is not the position among the types',
    edits=[(VASP, '            if int(atom.type) == t:\n', '            if int(atom.type) == count+1:\n')],
    demo=HEAD + TMP + '''
rng = np.random.RandomState(2)
s = system([[6., 0, 0], [0, 7., 0], [0, 0, 8.]], rng.rand(250, 3)*[6, 7, 8], 1 + 2*rng.randint(0, 2, 250))
s.to_file(D + "/p", format="poscar")
check(len(open(D + "/p").read().strip().split("\\n")) == 7 + 250, "lines")
''')
BUGS['c28-second-length'] = dict(property='C28', needs='hcp with different numbers of repetitions',
    what_it_breaks='the box is as many cells high as it is wide',
    edits=[(CRY, '    yh = ny*lattice_constant*yfact\n', '    yh = nx*lattice_constant*yfact\n')],
    demo=HEAD + '''
atoms, box = pcs.make_crystal("hcp", repetitions=[3, 4, 5])
check(max(a.pos[1] for a in atoms) < box[1][1], "outside")
check(len(atoms) == 4*60, "number")
''')
BUGS['c28-noise-layer'] = dict(property='C28', needs='noise',
    what_it_breaks='noise accumulates: sites of the unit cell drift with every repetition',
    edits=[(CRY, '                        posz = np.random.normal(loc=posz, scale=noise)\n', '                        posz = np.random.normal(loc=posx, scale=noise)+posz-unitcellx[l-1]-lattice_constant*xfact*(float(i)-1)\n')],
    demo=HEAD + '''
np.random.seed(1)
atoms, box = pcs.make_crystal("bcc", repetitions=[10, 10, 10], noise=0.05)
ref, box = pcs.make_crystal("bcc", repetitions=[10, 10, 10])
d = np.array([a.pos for a in atoms]) - np.array([a.pos for a in ref])
check(abs(np.mean(d[:, 0]*d[:, 2])) < 2e-4, "displacements along x and z are correlated")
''')
BUGS['c29-order'] = dict(property='C29', needs='LAMMPS holding the atoms in another order than the file',
    what_it_breaks='energies are assigned in the order of the ids instead of the order in which LAMMPS holds the atoms',
    edits=[(ROU, '    ids = [ids[x] for x in range(natoms)]\n', '    ids = sorted([ids[x] for x in range(natoms)])\n')],
    demo=HEAD + TMP + '''
import sys, types, os
m = types.ModuleType("lammps")
class lammps:
    def command(self, x): pass
    def get_natoms(self): return 250
    def extract_compute(self, *a): return [float(i) for i in range(250, 0, -1)]
    def extract_atom(self, *a): return list(range(250, 0, -1))
m.lammps = lammps
sys.modules["lammps"] = m
os.chdir(D)
rng = np.random.RandomState(2)
s = system([[6., 0, 0], [0, 7., 0], [0, 0, 8.]], rng.rand(250, 3)*[6, 7, 8])
s.calculate_energy(species=["Au"], pair_style="eam", pair_coeff="* * x", averaged=False)
check([a.energy for a in s.atoms] == [float(a.id) for a in s.atoms], "energies")
''')
BUGS['c30-stale-candidates'] = dict(property='C30', needs='two searches for neighbors with different methods',
    what_it_breaks='candidates of an earlier search stay in the list and atoms get neighbors twice',
    edits=[(SYS, '''        atoms[ti].n_neighbors=0;
        atoms[ti].temp_neighbors.clear();
''', '''        atoms[ti].n_neighbors=0;
        if (atoms[ti].condition == 0) atoms[ti].temp_neighbors.clear();
''')],
    demo=HEAD + '''
atoms, box = pcs.make_crystal("bcc", repetitions=[6, 6, 6])
s = pc.System(); s.box = box; s.atoms = atoms
s.find_neighbors(method="number", nmax=8)
s.cluster_atoms(lambda a: True)
s.find_neighbors(method="number", nmax=8)
for a in s.atoms:
    check(len(set(a.neighbors)) == 8, "neighbors")
''')
BUGS['c30-solid-stays'] = dict(property='C30', needs='finding solids twice, the second time with another set of neighbors',
    what_it_breaks='atoms that were solid before remain solid',
    edits=[(SYS, '                atoms[ti].issolid = (tfrac && (atoms[ti].avq6q6 > avgthreshold));\n', '                atoms[ti].issolid = atoms[ti].issolid || (tfrac && (atoms[ti].avq6q6 > avgthreshold));\n')],
    demo=HEAD + '''
atoms, box = pcs.make_crystal("bcc", repetitions=[6, 6, 6])
s = pc.System(); s.box = box; s.atoms = atoms
s.find_neighbors(method="cutoff", cutoff=0.9)
s.find_solids(bonds=0.5, threshold=0.5, avgthreshold=0.6, cluster=False)
check(all(a.solid for a in s.atoms), "crystal")
s.find_neighbors(method="cutoff", cutoff=0.5)
s.find_solids(bonds=0.5, threshold=0.5, avgthreshold=0.6, cluster=False)
check(not any(a.solid for a in s.atoms), "none can be solid")
''')
