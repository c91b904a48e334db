SYS = 'src/pyscal/system.cpp'
CORE = 'src/pyscal/core.py'
ATOM = 'src/pyscal/atom.cpp'
HEAD = '''import warnings
warnings.simplefilter("ignore")
import numpy as np
import pyscal.core as pc
import pyscal.crystal_structures as pcs
def check(ok, what):
    if not ok:
        raise SystemExit("FAILED: " + what)
def system(box, pos, types=None):
    s = pc.System()
    s.box = box
    s.atoms = [pc.Atom(pos=list(map(float, p)), id=i + 1, type=1 if types is None else int(types[i])) for i, p in enumerate(pos)]
    return s
'''
BUGS = {}
BUGS['c08-bond-components'] = dict(property='C08', needs='solid bonds from a degree l larger than 6',
    what_it_breaks='the bond coherence of degrees above 6 leaves out the last components',
    edits=[(SYS, '''    for (int mi = 0;mi < 2*solidq+1 ;mi++){

        sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
        sumSquaretj += atoms[tj]''', '''    int nq = min(2*solidq+1, 13);
    for (int mi = 0;mi < nq;mi++){

        sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
        sumSquaretj += atoms[tj]''')],
    demo=HEAD + '''
rng = np.random.RandomState(1)
atoms, box = pcs.make_crystal("bcc", repetitions=[6, 6, 6], noise=0.1)
s = pc.System(); s.box = box; s.atoms = atoms
s.find_neighbors(method="cutoff", cutoff=1.3)
s.find_solids(bonds=6, threshold=0.5, avgthreshold=0.6, cluster=False, q=8)
al = s.atoms
for a in al[:40]:
    q = np.array(a.get_qlm(8))
    for n, x in zip(a.neighbors, a.sij):
        p = np.array(al[n].get_qlm(8))
        want = np.real(np.sum(q*np.conj(p)))/np.linalg.norm(q)/np.linalg.norm(p)
        check(abs(want - x) < 1e-6, "sij %r %r" % (x, want))
''')
BUGS['c09-stale-cluster'] = dict(property='C09', needs='clustering twice with a condition that an atom fulfils only the first time',
    what_it_breaks='atoms that do not satisfy the condition keep the cluster of the call before',
    edits=[(SYS, '''    //reset belongsto indices
    for(int ti=0; ti<real_nop;ti++){
        atoms[ti].belongsto = -1;
    }
''', '''    //reset belongsto indices
    for(int ti=0; ti<real_nop;ti++){
        if (atoms[ti].condition) atoms[ti].belongsto = -1;
    }
''')],
    demo=HEAD + '''
atoms, box = pcs.make_crystal("sc", repetitions=[6, 6, 6])
s = pc.System(); s.box = box; s.atoms = atoms
s.find_neighbors(method="cutoff", cutoff=1.1)
n = s.cluster_atoms(lambda a: True)
check(n == 216, "all in one cluster")
n = s.cluster_atoms(lambda a: a.pos[0] < 1.5)
check(n == 72, "two layers %r" % n)
''')
BUGS['c12-remap-skew'] = dict(property='C12', needs='a triclinic box and an atom beyond the upper face of the third vector while it is inside along the others',
    what_it_breaks='atoms outside by the second and the third vector are moved back along one of them only',
    edits=[(SYS, '''        if (dy < 0) dy+=boxy;
        else if (dy >= boxy) dy-=boxy;
        if (dz < 0) dz+=boxz;
        else if (dz >= boxz) dz-=boxz;

        //now divide by box vals - scale down the size''', '''        if (dy < 0) dy+=boxy;
        else if (dy >= boxy) dy-=boxy;
        else if (dz < 0) dz+=boxz;
        else if (dz >= boxz) dz-=boxz;
        if (dz < 0) dz+=boxz;

        //now divide by box vals - scale down the size''')],
    demo=HEAD + '''
box = [[10., 0, 0], [1., 11., 0], [2., 0.5, 12.]]
s = system(box, np.random.RandomState(3).rand(220, 3)*5)
b = np.array(box)
for f in ([0.5, 1.2, 0.3], [0.5, 0.5, 1.25], [0.1, -0.2, 1.1], [1.3, 1.3, 1.3]):
    p = s.remap_atom(list(np.array(f).dot(b)))
    g = np.array(p).dot(np.linalg.inv(b))
    check(np.allclose(g, np.array(f) % 1), "remapped %r %r" % (f, g))
''')
X = dict(property='C13', needs='a second analysis after the positions have changed',
    what_it_breaks='atoms that have got a structure keep it in later analyses although their surroundings changed',
    edits=[(SYS, '''    //create array for result
    vector<int> analyis;
    for(int i=0; i<5; i++){
        analyis.emplace_back(0);
    }

    //assign structures to 0
    for(int i=0; i<nop; i++){
        atoms[i].structure = 0;
    }
''', '''    //create array for result
    vector<int> analyis;
    for(int i=0; i<5; i++){
        analyis.emplace_back(0);
    }

    //structures of other methods do not count
    for(int i=0; i<nop; i++){
        if (atoms[i].structure > 4) atoms[i].structure = 0;
    }
''')],
    demo=HEAD + '''
rng = np.random.RandomState(5)
atoms, box = pcs.make_crystal("fcc", repetitions=[4, 4, 4])
s = pc.System(); s.box = box; s.atoms = atoms
r = s.calculate_cna()
check(r["fcc"] == 256, "fcc")
for i in range(256):
    a = s.get_atom(i)
    a.pos = list(rng.rand(3)*4)
    s.set_atom(a)
r = s.calculate_cna()
check(r["fcc"] < 128, "disordered atoms are not fcc: %r" % r)
''')
BUGS['c14-second-shell'] = dict(property='C14', needs='an atom whose only nearest neighbor of diamond structure is the fourth',
    what_it_breaks='nearest neighbors of diamond atoms are overlooked if only their farthest nearest neighbor is a diamond atom',
    edits=[(SYS, '''            for(int i=0; i<4; i++){
                n = atoms[ti].nn1[i];''', '''            for(int i=0; i<3; i++){
                n = atoms[ti].nn1[i];''')],
    demo=HEAD + '''
atoms, box = pcs.make_crystal("diamond", repetitions=[5, 5, 5])
bad = 0
keep = []
c = np.array([2.5, 2.5, 2.5])
pos = np.array([a.pos for a in atoms])
d = np.linalg.norm(pos - c, axis=1)
# a ball of crystal in disordered surroundings
rng = np.random.RandomState(2)
for i, a in enumerate(atoms):
    if d[i] > 1.1:
        a.pos = list(pos[i] + 0.35*(rng.rand(3) - 0.5))
s = pc.System(); s.box = box; s.atoms = atoms
s.identify_diamond()
al = s.atoms
st = [a.structure for a in al]
check(st.count(5) > 0, "some diamond")
n6 = 0
p = np.array([a.pos for a in al])
for i in range(len(al)):
    if st[i] in (5, 8):
        continue
    d = p - p[i]
    d -= 5.0*np.round(d/5.0)
    near = np.argsort(np.sum(d*d, axis=1))[1:5]
    has = [st[n] for n in near if st[n] in (5, 8)]
    if has:
        n6 += 1
        check(st[i] == (6 if has[0] == 5 else 9), "structure %d of a neighbor" % st[i])
check(n6 > 0, "some first neighbors")
''')
BUGS['c15-zero-sum'] = dict(property='C15', needs='fewer than eight neighbors',
    what_it_breaks='pairs of neighbors beyond the number asked for take part',
    edits=[(SYS, "if (get_all_neighbors_bynumber(3, nmax, 1) == 0){", "if (get_all_neighbors_bynumber(3, max(nmax, 8), 1) == 0){")],
    demo=HEAD + '''
rng = np.random.RandomState(1)
pos = [[2.0*i, 2.5*j, 3.0*k] for i in range(6) for j in range(6) for k in range(6)]
pos = np.array(pos) + 0.3*rng.rand(216, 3)
L = np.array([12., 15., 18.])
s = system(np.diag(L).tolist(), pos)
s.calculate_centrosymmetry(nmax=4)
for i, a in enumerate(s.atoms):
    d = pos - pos[i]
    d -= L*np.round(d/L)
    v = d[np.argsort(np.sum(d*d, axis=1))[1:5]]
    c = sorted(np.sum((v[k] + v[l])**2) for k in range(4) for l in range(k))
    check(abs(c[0] + c[1] - a.centrosymmetry) < 1e-9, "centrosymmetry %r %r" % (a.centrosymmetry, c[0] + c[1]))
''')
BUGS['c16-self-coherence'] = dict(property='C16', needs='the averaged disorder in a system where neighbors are not mutual or have different numbers of neighbors',
    what_it_breaks='the averaged disorder divides by the number of neighbors of the last neighbor',
    edits=[(SYS, '''        for (int ci = 0; ci<nn; ci++){
            vv += atoms[atoms[ti].neighbors[ci]].disorder;
        }
        vv = vv/(double(nn+1));''', '''        for (int ci = 0; ci<nn; ci++){
            vv += atoms[atoms[ti].neighbors[ci]].disorder;
            nn = min(nn, atoms[atoms[ti].neighbors[ci]].n_neighbors);
        }
        vv = vv/(double(nn+1));''')],
    demo=HEAD + '''
atoms, box = pcs.make_crystal("bcc", repetitions=[6, 6, 6], noise=0.2)
s = pc.System(); s.box = box; s.atoms = atoms
s.find_neighbors(method="cutoff", cutoff=1.2)
s.calculate_q(6)
s.calculate_disorder(averaged=True, q=6)
al = s.atoms
for a in al:
    want = (a.disorder + sum(al[n].disorder for n in a.neighbors))/(len(a.neighbors) + 1)
    check(abs(want - a.avg_disorder) < 1e-9, "averaged disorder %r %r" % (a.avg_disorder, want))
''')
BUGS['c17-last-neighbor'] = dict(property='C17', needs='entropy averaged with a switching function for an atom after one with other neighbors',
    what_it_breaks='the weights of the atom before are carried over',
    edits=[(SYS, '''        frijsum = 0.0;
        entfrijsum = 0.0;

''', '''        if (atoms[i].n_neighbors > 0) frijsum = 0.0;
        entfrijsum = 0.0;

''')],
    demo=HEAD + '''
rng = np.random.RandomState(1)
pos = [[1.0*i, 1.0*j, 1.0*k] for i in range(6) for j in range(6) for k in range(6)] + [[15., 15., 15.]]
s = system([[20., 0, 0], [0, 20., 0], [0, 0, 20.]], pos)
s.find_neighbors(method="cutoff", cutoff=1.5)
s.calculate_entropy(1.5, sigma=0.2, averaged=True, switching_function=True, ra=1.1)
a = s.atoms[-1]
check(len(a.neighbors) == 0, "last atom is alone")
check(abs(a.avg_entropy - a.entropy) < 1e-12, "average of an atom without neighbors is its own value: %r %r" % (a.avg_entropy, a.entropy))
b = s.atoms[100]
''')
BUGS['c20-pairs'] = dict(property='C20', needs='the height of the radial distribution function',
    what_it_breaks='the mean density of pairs counts every atom with itself',
    edits=[(CORE, "rho = int(natoms*(natoms-1)*0.5)/vol", "rho = int(natoms*natoms*0.5)/vol")],
    demo=HEAD + '''
atoms, box = pcs.make_crystal("sc", repetitions=[6, 6, 6])
s = pc.System(); s.box = box; s.atoms = atoms
g, r = s.calculate_rdf(histobins=10, histomin=0.5, histomax=1.2)
n = sum(g*4/3*np.pi*((r + 0.07)**3 - r**3))*(216*215/2)/216
check(abs(n - 216*3) < 1e-6, "number of pairs %r" % n)
''')
X = dict(property='C21', needs='an atom with more than four neighbors, the nearest of which are not the first of the list',
    what_it_breaks='the angular criterion takes the first four neighbors of the list',
    edits=[(CORE, "topfourargs = np.array(args)[:4]", "topfourargs = np.sort(args)[:4]")],
    demo=HEAD + '''
rng = np.random.RandomState(4)
atoms, box = pcs.make_crystal("diamond", repetitions=[3, 3, 3])
s = pc.System(); s.box = box; s.atoms = atoms
s.find_neighbors(method="cutoff", cutoff=0.75)
s.calculate_angularcriteria()
check(max(a.angular for a in s.atoms) < 1e-9, "diamond")
''')
BUGS['c22-second-shell'] = dict(property='C22', needs='a second shell of another size than the first that holds atoms of the other type',
    what_it_breaks='the second shell is divided by the number of atoms of the first',
    edits=[(CORE, "shell2 = 1 - (set2otr/(len(set2)*motr))", "shell2 = 1 - (set2otr/(len(set1)*motr))")],
    demo=HEAD + '''
atoms, box = pcs.make_crystal("bcc", repetitions=[6, 6, 6])
rng = np.random.RandomState(2)
for a in atoms:
    a.type = int(rng.randint(1, 3))
s = pc.System(); s.box = box; s.atoms = atoms
s.find_neighbors(method="cutoff", cutoff=1.2)
s.calculate_sro(reference_type=1)
al = s.atoms
c2 = sum(1 for a in al if a.type == 2)/len(al)
for a in al:
    if a.type == 1:
        far = [n for n, d in zip(a.neighbors, a.neighbor_distance) if d > 0.95]
        want = 1 - sum(1 for n in far if al[n].type == 2)/(len(far)*c2)
        check(abs(a.sro[1] - want) < 1e-9, "second shell %r %r" % (a.sro[1], want))
''')
X = dict(property='C10', needs='a small system with two types of atoms whose ghosts are looked at',
    what_it_breaks='copies of atoms on the negative side of the cell get the type of the first atom',
    edits=[(CORE, '''                        a.type = atom.type
                        if ghost:
                            a.ghost = 1
''', '''                        a.type = atom.type if (i >= 0) else atoms[0].type
                        if ghost:
                            a.ghost = 1
''')],
    demo=HEAD + '''
s = system([[4., 0, 0], [0, 4., 0], [0, 0, 4.]], [[0, 0, 0], [2, 2, 2]], [1, 2])
al = s.get_all_atoms()
for a in al:
    d = np.array(a.pos)/2
    check(a.type == (1 if int(round(d[0])) % 2 == 0 else 2), "type of a copy")
''')
