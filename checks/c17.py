"""C17: entropy fingerprints."""
import math
from engine.harness import H
from .common import atoms_of, small_system

PROPERTY = dict(
    title='Entropy fingerprints are the integral of the smeared radial distribution',
    statement='calculate_entropy gives every atom minus rho k times the trapezoid rule for (g ln g - g + 1) r^2 from rstart to rm in steps of h, g(r) being the Gaussian smeared distribution of its own neighbors, '
              'with the number density of the system or, with local=True, that of its own neighborhood.  Averages are those over the atom and its neighbors, weighted by the switching function '
              '(1-(r/ra)^N)/(1-(r/ra)^M) if asked for.  Values are finite, and independent of boxes being small, tilted or left handed.',
    quantifier=dict(over=['inputs'], text='all neighbor distances, box sizes and shapes, and all parameters'),
    why_tests_cant='One test compares the mean over one crystal with a number from the same code to three digits, where values of single atoms, local densities and averages with different neighbors cancel.',
    anchors=dict(files=['src/pyscal/system.cpp', 'src/pyscal/atom.cpp', 'src/pyscal/core.py'],
                 mechanism=[dict(name='entropy, average_entropy, average_entropy_switch, switching_fn', where='system.cpp'), dict(name='gmr, entropy_integrand, trapezoid_integration', where='atom.cpp'),
                            dict(name='System.calculate_entropy', where='core.py')],
                 observe_at=['Atom.entropy', 'Atom.avg_entropy']))

BOUNDS = ('4 or 5 atoms with 0 to 4 neighbors at symbolic distances, 4 to 9 integration steps, symbolic box edges, rm, sigma, ra and powers from lists')
OUTSIDE = 'rounding; values of exp that underflow; steps that do not divide the range'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic; exp, log and sqrt are the mathematical functions',
               'both the full trapezoid rule and the one without the last but one point are accepted but in the harness "rule" (known finding)']

PI = 3.141592653589793


def weights(nsteps, drop):
    w = [1.0] + [2.0] * (nsteps - 1) + [1.0]
    if drop and nsteps > 1:
        w[nsteps - 1] = 0.0
    return w


def value(E, dist, rho, sigma, rstart, rm, h, drop):
    nsteps = int((rm - rstart) / h)
    s = 0
    for j, w in enumerate(weights(nsteps, drop)):
        if not w:
            continue
        r = E.const(rstart + j * h)
        if not dist:
            f = r * r
        else:
            g = sum(E.exp(-(r - d) * (r - d) * E.div(E.const(1), 2 * E.const(sigma) * E.const(sigma))) for d in dist)
            g = g * E.div(E.const(1), 4 * E.const(PI) * rho * r * r) * E.div(E.const(1), E.sqrt(2 * E.const(PI) * E.const(sigma) * E.const(sigma)))
            f = (g * E.log(g) - g + 1) * r * r
        s = s + w * f
    return -rho * s * E.const(h) / 2


def either(E, got, full, short, what, tol=1e-7):
    E.check(E.Or(E.all([got - full <= tol, full - got <= tol]), E.all([got - short <= tol, short - got <= tol])), what)


def chain(E, n, sym):
    """atoms on a line, 1.5 to 2 apart; returns coordinates"""
    xs = [E.const(1), E.const(2.5), E.const(4.25), E.const(6), E.const(7.5)][:n]
    for k in sym.split():
        xs[int(k)] = xs[int(k)] + E.real('x' + k, -0.125, 0.125)
    return xs


def expected_neighbors(E, xs, L, cutoff):
    out = []
    for i, x in enumerate(xs):
        o = []
        for j, y in enumerate(xs):
            if i == j:
                continue
            for k in (-1, 0, 1):
                d = y + k * L - x
                a = d if E.number(d) > 0 else -d
                if bool(a < cutoff):
                    o.append((j, a))
        out.append(o)
    return out


def integral(E, n, sym, cutoff, sigma=0.25, rstart=0.5, rm=3.0, h=0.5, local=False, box='ortho', lone=False, small=False, rule=False):
    L = E.const(16)
    w = E.real('w', 5, 7) if box == 'sized' else 6
    b = {'ortho': [[16, 0, 0], [0, 6, 0], [0, 0, 6]], 'sized': [[16, 0, 0], [0, w, 0], [0, 0, 6]], 'left': [[16, 0, 0], [0, 0, 6], [0, 6, 0]], 'tri': [[16, 0, 0], [1, 8, 0], [0, 0.5, 8]]}[box]
    xs = chain(E, n, sym)
    pos = [[x, 2, 2] for x in xs]
    if lone:
        pos.append([12, 4, 4])
    s = E.mod('core').System()
    if small:
        s = small_system(E, b, pos)
    else:
        s.box = b
        s.set_atoms(atoms_of(E, pos))
    s.find_neighbors(method='cutoff', cutoff=cutoff)
    near = expected_neighbors(E, xs, L, cutoff) + ([[]] if lone else [])
    s.calculate_entropy(rm, sigma=sigma, rstart=rstart, h=h, local=local, averaged=True)
    # plain numbers are divided as floats by the code
    dens = E.div(E.const(len(pos)), 96 * w) if box == 'sized' else E.const(len(pos) / (1024.0 if box == 'tri' else 576.0))
    vals = []
    for i in range(len(pos)):
        a = s.get_atom(i)
        E.same(len(a.neighbors), len(near[i]), 'neighbors of atom %d' % i)
        rho = E.div(E.const(len(near[i])), E.const(4.1887902047863905) * E.const(cutoff) * E.const(cutoff) * E.const(cutoff)) if local else dens
        ds = [d for j, d in near[i]]
        full = value(E, ds, rho, sigma, rstart, rm, h, False)
        if rule:
            E.eq(a.entropy, full, 'trapezoid rule')
        else:
            either(E, a.entropy, full, value(E, ds, rho, sigma, rstart, rm, h, True), 'entropy of atom %d' % i)
        vals.append(a.entropy)
    for i in range(len(pos)):
        want = E.div(vals[i] + sum(vals[j] for j, d in near[i]), E.const(1 + len(near[i])))
        E.eq(s.get_atom(i).avg_entropy, want, 'average of atom %d' % i)
    E.done()


def rule(E):
    integral(E, 3, '1', 2.5, rule=True)


def switching(E, n, sym, cutoff, ra, M=12, N=6, lone=False):
    L = E.const(16)
    xs = chain(E, n, sym)
    pos = [[x, 2, 2] for x in xs]
    if lone:
        pos.append([12, 4, 4])
    s = E.mod('core').System()
    s.box = [[16, 0, 0], [0, 6, 0], [0, 0, 6]]
    s.set_atoms(atoms_of(E, pos))
    s.find_neighbors(method='cutoff', cutoff=cutoff)
    near = expected_neighbors(E, xs, L, cutoff) + ([[]] if lone else [])
    n = len(pos)
    for i in range(n):
        for j, d in near[i]:
            if not (E.number(d) == ra and len(sym.split()) == 0):
                E.apart(d, ra, 1e-3)
    s.calculate_entropy(2.5, sigma=0.5, rstart=0.5, h=0.5, averaged=True, switching_function=True, ra=ra, M=M, N=N)
    vals = [s.get_atom(i).entropy for i in range(n)]
    for i in range(n):
        top, bot = vals[i], E.const(1)
        for j, d in near[i]:
            x = d * E.frac(1, 1) / E.const(ra)
            xn, xm = E.const(1), E.const(1)
            for k in range(N):
                xn = xn * x
            for k in range(M):
                xm = xm * x
            if not sym and E.number(d) == ra:
                f = E.frac(N, M)
            else:
                f = E.div(1 - xn, 1 - xm)
            top, bot = top + f * vals[j], bot + f
        E.eq(s.get_atom(i).avg_entropy, E.div(top, bot), 'average of atom %d' % i)
    E.done()


HARNESSES = [
    H('integral', integral, [{'n': 3, 'sym': '1', 'cutoff': 2.5}, {'n': 4, 'sym': '0 2', 'cutoff': 2.25, 'local': True, 'lone': True}, {'n': 3, 'sym': '2', 'cutoff': 4.5, 'box': 'left'},
                             {'n': 2, 'sym': '', 'cutoff': 2.5, 'box': 'sized', 'lone': True}, {'n': 2, 'sym': '1', 'cutoff': 2, 'small': True}, {'n': 2, 'sym': '1', 'cutoff': 2, 'box': 'tri'}],
      [{'n': n, 'sym': y, 'cutoff': c, 'local': l, 'lone': o, 'box': b, 'sigma': sg} for n, y in ((3, '1'), (4, '0 2'), (5, '1 3')) for c in (2.25, 4.5) for l in (False, True) for o, b in ((False, 'ortho'), (True, 'left'), (True, 'sized')) for sg in (0.25, 0.5)]
      + [{'n': 3, 'sym': '1', 'cutoff': 2.5, 'rstart': 0.25, 'rm': 2.5, 'h': 0.25}, {'n': 2, 'sym': '1', 'cutoff': 2, 'small': True, 'local': True}]),
    H('switching', switching, [{'n': 3, 'sym': '1', 'cutoff': 2.5, 'ra': 2, 'lone': True}, {'n': 3, 'sym': '', 'cutoff': 2.5, 'ra': 1.5, 'M': 8, 'N': 4}],
      [{'n': n, 'sym': y, 'cutoff': c, 'ra': r, 'M': M, 'N': N, 'lone': n == 4} for n, y in ((3, '1'), (4, '2')) for c in (2.5, 4.5) for r in (1.5, 2, 3) for M, N in ((12, 6), (8, 4), (4, 2))]),
    H('rule', rule, [{}]),
]
