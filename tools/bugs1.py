SYS = 'src/pyscal/system.cpp'
CORE = 'src/pyscal/core.py'
HEAD = '''import warnings
warnings.simplefilter("ignore")
import numpy as np
import pyscal.core as pc
'''
BUGS = {}
BUGS['c01-triclinic-half-z'] = dict(property='C01', needs='a triclinic box whose second and third vectors differ in length, and a pair with a separation along the third vector between half of the one and half of the other, in the negative direction',
    what_it_breaks='the minimum image along the third vector: the pairwise distance compares with the wrong half length',
    edits=[(SYS, '''        if (diffz<-boxz/2.0) {diffz+=boxz;};

        //now divide by box vals - scale down the size
        diffx = diffx/boxx;
        diffy = diffy/boxy;
        diffz = diffz/boxz;

        //now transform back to normal system
        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;

        //now assign to diffs and calculate distnace
        diffx = ax;
        diffy = ay;
        diffz = az;

        //finally distance
        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);

    }
    else{
        //nearest image
        if (diffx> boxx/2.0) {diffx-=boxx;};
        if (diffx<-boxx/2.0) {diffx+=boxx;};
        if (diffy> boxy/2.0) {diffy-=boxy;};
        if (diffy<-boxy/2.0) {diffy+=boxy;};
        if (diffz> boxz/2.0) {diffz-=boxz;};
        if (diffz<-boxz/2.0) {diffz+=boxz;};
        abs =''', '''        if (diffz<-boxy/2.0) {diffz+=boxz;};

        //now divide by box vals - scale down the size
        diffx = diffx/boxx;
        diffy = diffy/boxy;
        diffz = diffz/boxz;

        //now transform back to normal system
        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;

        //now assign to diffs and calculate distnace
        diffx = ax;
        diffy = ay;
        diffz = az;

        //finally distance
        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);

    }
    else{
        //nearest image
        if (diffx> boxx/2.0) {diffx-=boxx;};
        if (diffx<-boxx/2.0) {diffx+=boxx;};
        if (diffy> boxy/2.0) {diffy-=boxy;};
        if (diffy<-boxy/2.0) {diffy+=boxy;};
        if (diffz> boxz/2.0) {diffz-=boxz;};
        if (diffz<-boxz/2.0) {diffz+=boxz;};
        abs =''')],
    demo=HEAD + '''
s = pc.System()
s.box = [[10, 0, 0], [2, 10, 0], [0, 1, 16]]
at = [pc.Atom(pos=[1, 1, 15], id=1), pc.Atom(pos=[1.5, 1.5, 7.5], id=2)]
s.set_atoms(at)
d = s.get_pairdistances()[0]
box = np.array([[10, 0, 0], [2, 10, 0], [0, 1, 16.]])
v = np.array([0.5, 0.5, -7.5])
f = np.linalg.solve(box.T, v)
f -= np.round(f)
e = np.linalg.norm(f @ box)
assert abs(d - e) < 1e-9, (d, e)
''')

BUGS['c02-filter-stays'] = dict(property='C02', needs='a search with a type filter followed by one without',
    what_it_breaks='the filter of an earlier search stays in force',
    edits=[(CORE, '''        self.reset_allneighbors()
        self.filter = 0
''', '''        self.reset_allneighbors()
''')],
    demo=HEAD + '''
import random
random.seed(3)
def make():
    random.seed(3)
    s = pc.System()
    s.box = [[9, 0, 0], [0, 9.2, 0], [0, 0, 9.4]]
    s.atoms = [pc.Atom(pos=[9 * random.random() for k in range(3)], id=i + 1, type=1 + i % 2) for i in range(220)]
    return s
a = make()
a.find_neighbors(method='cutoff', cutoff=2.4)
b = make()
b.find_neighbors(method='cutoff', cutoff=3.2, filter='type')
b.find_neighbors(method='cutoff', cutoff=2.4)
assert [x.neighbors for x in a.atoms] == [x.neighbors for x in b.atoms]
''')

BUGS['c03-cells-type-filter'] = dict(property='C03', needs='more than 2300 atoms of more than one type and the filter type_r',
    what_it_breaks='the type filter of the cell-list search drops pairs whose second atom is of a higher type',
    edits=[(SYS, '''                        else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                            continue;
                        }
                        //process_neighbor(ti, tj);
                        atoms[ti].neighbors''', '''                        else if ((filter == 2) && (atoms[ti].type >= atoms[tj].type)){
                            continue;
                        }
                        //process_neighbor(ti, tj);
                        atoms[ti].neighbors''')],
    demo=HEAD + '''
import pyscal.crystal_structures as pcs
atoms, box = pcs.make_crystal('b2', repetitions=[11, 11, 11], lattice_constant=1.0)
s = pc.System()
s.box = box
s.atoms = atoms
assert len(s.atoms) > 2300
s.find_neighbors(method='cutoff', cutoff=0.9, filter='type_r')
assert all(a.coordination == 8 for a in s.atoms)
''')

BUGS['c04-adaptive-filter-stops'] = dict(property='C04', needs='an adaptive cutoff together with a type filter, and an atom whose neighbors of the two kinds interleave with distance',
    what_it_breaks='the search ends at the first neighbor of a different type and loses farther ones of the same type',
    edits=[(SYS, '''                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
                    continue;
                }
                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                    continue;
                }
                d = get_abs_distance(ti,tj,diffx,diffy,diffz);
                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;''', '''                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
                    if (j < nlimit) continue;
                    break;
                }
                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                    continue;
                }
                d = get_abs_distance(ti,tj,diffx,diffy,diffz);
                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;''')],
    demo=HEAD + '''
import random
random.seed(5)
s = pc.System()
s.box = [[12, 0, 0], [0, 12, 0], [0, 0, 12]]
s.atoms = [pc.Atom(pos=[12 * random.random() for k in range(3)], id=i + 1, type=1 + i % 2) for i in range(300)]
s.find_neighbors(method='cutoff', cutoff='adaptive')
full = [set(a.neighbors) for a in s.atoms]
types = [a.type for a in s.atoms]
s.find_neighbors(method='cutoff', cutoff='adaptive', filter='type')
for i, a in enumerate(s.atoms):
    assert set(a.neighbors) == {j for j in full[i] if types[j] == types[i]}, i
''')

BUGS['c05-sann-retry-keeps'] = dict(property='C05', needs='a threshold so small that the first attempt of the SANN search does not converge and it is repeated with a larger radius',
    what_it_breaks='neighbors of the unsuccessful attempt stay in the list',
    edits=[(CORE, '''                        self.reset_allneighbors()
                        newfinished''', '''                        newfinished''')],
    demo=HEAD + '''
import random
random.seed(5)
s = pc.System()
s.box = [[12, 0, 0], [0, 12, 0], [0, 0, 12]]
s.atoms = [pc.Atom(pos=[12 * random.random() for k in range(3)], id=i + 1) for i in range(250)]
s.find_neighbors(method='cutoff', cutoff='sann', threshold=1.1)
for a in s.atoms:
    assert len(a.neighbors) == len(set(a.neighbors))
''')

BUGS['c06-weights-of-others'] = dict(property='C06', needs='a condition that excludes some of the neighbors of an atom',
    what_it_breaks='the normalisation counts the weights of neighbors that were left out',
    edits=[(SYS, '''                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue;
                    QLM(''', '''                    weightsum += atoms[ti].neighborweight[ci];
                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue;
                    QLM('''),
           (SYS, '''                    imgti += atoms[ti].neighborweight[ci]*imgYLM;
                    weightsum += atoms[ti].neighborweight[ci];
''', '''                    imgti += atoms[ti].neighborweight[ci]*imgYLM;
''')],
    demo=HEAD + '''
import random
random.seed(5)
def run(keep):
    random.seed(5)
    pos = [[12 * random.random() for k in range(3)] for i in range(300)]
    s = pc.System()
    s.box = [[12, 0, 0], [0, 12, 0], [0, 0, 12]]
    s.atoms = [pc.Atom(pos=p, id=i + 1, type=1 + i % 2) for i, p in enumerate(pos)]
    s.find_neighbors(method='cutoff', cutoff=3.0, filter='type' if keep else None)
    s.calculate_q(4, condition=None if keep else (lambda a: a.type == 1))
    return s.get_qvals(4)
assert np.allclose(run(True), run(False))
''')

BUGS['c07-condition-false-averages'] = dict(property='C07', needs='an averaged parameter with a condition that is false for an atom and true for one of its neighbors',
    what_it_breaks='atoms for which the condition is false average over all of their neighbors',
    edits=[(SYS, '''                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue; 
''', '''                    if (atoms[ti].condition > atoms[atoms[ti].neighbors[ci]].condition) continue; 
''')],
    demo=HEAD + '''
import random
random.seed(5)
s = pc.System()
s.box = [[12, 0, 0], [0, 12, 0], [0, 0, 12]]
s.atoms = [pc.Atom(pos=[12 * random.random() for k in range(3)], id=i + 1, type=1 + i % 2) for i in range(300)]
s.find_neighbors(method='cutoff', cutoff=3.0)
s.calculate_q(4)
s.calculate_q(4, only_averaged=True, condition=lambda a: a.type == 1)
q = [np.array(a.get_qlm(4)) for a in s.atoms]
t = [a.type for a in s.atoms]
for i, a in enumerate(s.atoms):
    m = np.mean([q[i]] + [q[j] for j in a.neighbors if t[j] == t[i]], axis=0)
    assert np.allclose(m, np.array(a.get_qlm(4, averaged=True))), i
''')
