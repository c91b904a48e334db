"""C28: crystal structures."""
from engine.harness import H

PROPERTY = dict(
    title='make_crystal fills the box with exactly the sites of the crystal structure',
    statement='For every structure, lattice constant, c/a ratio and number of repetitions in each direction, make_crystal gives the orthogonal box of that many unit '
              'cells and one atom on every site of the lattice within it, none missing, doubled or outside, with the type of the sublattice and ids from 1 in the '
              'order of the list.  Noise displaces every coordinate of every atom by its own normally distributed amount about the site; without noise there is '
              'no displacement, and unknown structures are refused.',
    quantifier=dict(over=['inputs'], text='all lattice constants, ratios, repetitions and structures, all values of the random numbers'),
    why_tests_cant='The test counts atoms of one unit cell of each structure; positions, types, boxes and repetitions are only used indirectly.',
    anchors=dict(files=['src/pyscal/crystal_structures.py'], mechanism=[dict(name='make_crystal', where='crystal_structures.py')],
                 observe_at=['crystal_structures.make_crystal']))

BOUNDS = 'symbolic lattice constant, c/a ratio, noise and random numbers; 1 to 3 (quick) or 4 repetitions in each direction, all structures'
OUTSIDE = 'the distribution of the random numbers, which is that of numpy; the positions of noisy atoms outside of the box are not wrapped'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic', 'the random numbers are symbolic values in intervals of their own']

FCC = [(0, 0, 0), (.5, .5, 0), (.5, 0, .5), (0, .5, .5)]
A15 = [(0, 0, 0), (.5, .5, .5), (.25, .5, 0), (.75, .5, 0), (0, .25, .5), (0, .75, .5), (.5, 0, .25), (.5, 0, .75)]
# sites in units of the cell and their types
SITES = {
    'sc': [((0, 0, 0), 1)],
    'bcc': [((0, 0, 0), 1), ((.5, .5, .5), 1)],
    'b2': [((0, 0, 0), 1), ((.5, .5, .5), 2)],
    'fcc': [(p, 1) for p in FCC],
    'l12': [(p, 2 if any(p) else 1) for p in FCC],
    'diamond': [(p, 1) for p in FCC] + [(tuple((x + .25) % 1 for x in p), 1) for p in FCC],
    'a15': [(p, 1) for p in A15],
    # orthogonal cell: A and B layers shifted by a third of the cell
    'hcp': [((0, 0, 0), 1), ((.5, .5, 0), 1), ((.5, (1, 6), .5), 1), ((0, (2, 3), .5), 1)],
}


def cell(E, structure, a, ratio):
    if structure == 'hcp':
        return [a, a * E.sqrt(E.const(3)), a * ratio]
    return [a, a, a]


def match(E, structure, reps, c, atoms, box):
    """one atom on each site"""
    for i in range(3):
        for k in range(3):
            E.eq(box[i][k], c[i] * reps[i] if i == k else 0, 'box vector %d, component %d' % (i, k))
    sites = {}
    for i in range(reps[0]):
        for j in range(reps[1]):
            for k in range(reps[2]):
                for p, t in SITES[structure]:
                    q = tuple(E.frac(*x) + n if isinstance(x, tuple) else E.const(x) + n for x, n in zip(p, (i, j, k)))
                    sites[tuple(round(24 * E.number(x)) for x in q)] = (q, t)
    E.check(len(atoms) == len(sites), '%d atoms on %d sites' % (len(atoms), len(sites)))
    for m, at in enumerate(atoms):
        guess = tuple(round(24 * E.number(x) / E.number(y)) for x, y in zip(at.pos, c))
        E.check(guess in sites, 'atom %d is not on a free site' % m)
        if guess not in sites:
            return
        q, t = sites.pop(guess)
        for k in range(3):
            E.eq(at.pos[k], q[k] * c[k], 'position of atom %d' % m)
        E.check(at.type == t, 'type of atom %d' % m)
        E.check(at.id == m + 1, 'id of atom %d' % m)
    E.check(not sites, 'sites without atoms')


def lattice(E, structure, most):
    m = E.mod('crystal_structures')
    a = E.real('a', 0.5, 10)
    ratio = E.real('ratio', 1, 3)
    reps = [E.choice('r%d' % k, list(range(1, most + 1))) for k in range(3)]
    atoms, box = m.make_crystal(structure, lattice_constant=a, repetitions=list(reps), ca_ratio=ratio)
    E.observe('pos', [x for at in atoms[:6] for x in at.pos])
    match(E, structure, reps, cell(E, structure, a, ratio), atoms, box)
    E.done()


def defaults(E):
    m = E.mod('crystal_structures')
    structure = E.choice('structure', sorted(SITES))
    atoms, box = m.make_crystal(structure)
    match(E, structure, [1, 1, 1], cell(E, structure, E.const(1), E.const(1.633)), atoms, box)
    try:
        m.make_crystal('zns')
        ok = False
    except ValueError:
        ok = True
    E.check(ok, 'unknown structures are refused')
    E.done()


def noise(E, structure, reps):
    m = E.mod('crystal_structures')
    a = E.real('a', 0.5, 10)
    sd = E.real('noise', 0.01, 0.5)
    calls = []

    def normal(loc=0.0, scale=1.0, size=None):
        def one(l):
            # each in an interval of its own, so that they can be told apart
            c = (-1) ** len(calls) * (0.25 + len(calls) / 8)
            g = E.real('g%d' % len(calls), c - 0.03125, c + 0.03125)
            calls.append(g)
            return l + scale * g
        if size is None and not hasattr(loc, '__len__'):
            return one(loc)
        n = size if isinstance(size, int) else size[0] if size else len(loc)
        return m.np.array([one(loc[i] if hasattr(loc, '__len__') else loc) for i in range(n)])
    ideal, box0 = m.make_crystal(structure, lattice_constant=a, repetitions=reps)
    old = m.np.random.normal
    m.np.random.normal = normal
    try:
        atoms, box = m.make_crystal(structure, lattice_constant=a, repetitions=reps, noise=sd)
    finally:
        m.np.random.normal = old
    E.check(len(calls) == 3 * len(ideal), 'a random number for each coordinate')
    E.check(len(atoms) == len(ideal), 'number of atoms')
    for i in range(3):
        E.eqs(box[i], box0[i], 'box with noise')
    used = []
    for i, (x, y) in enumerate(zip(atoms, ideal)):
        E.check((x.id, x.type) == (y.id, y.type), 'id and type of atom %d' % i)
        for k in range(3):
            d = E.number(x.pos[k] - y.pos[k]) / E.number(sd)
            n = min(range(len(calls)), key=lambda c: abs(E.number(calls[c]) - d))
            used.append(n)
            E.eq(x.pos[k], y.pos[k] + sd * calls[n], 'position of atom %d with noise' % i)
    E.check(len(set(used)) == len(calls), 'two coordinates share a random number')
    E.done()


HARNESSES = [
    H('lattice', lattice, [dict(structure=s, most=3 if len(SITES[s]) < 4 else 2) for s in sorted(SITES)], [dict(structure=s, most=4) for s in sorted(SITES)]),
    H('defaults', defaults, [{}]),
    H('noise', noise, [dict(structure='fcc', reps=[1, 2, 1])], [dict(structure=s, reps=[2, 1, 2]) for s in ('hcp', 'diamond', 'b2')]),
]
