"""C20: radial distribution function."""
from engine.harness import H
from .common import system, small_system, ortho_box

PROPERTY = dict(
    title='The radial distribution function counts pairs per shell volume and density',
    statement='Value k of the radial distribution function is the number of pairs of atoms whose minimum image distance falls in bin k, divided by the '
              'volume of the spherical shell and by the number of pairs per volume of the box; the bins are of equal width from histomin to histomax (by '
              'default the largest distance, which is counted) and the returned radii are their lower limits.  It does not depend on where the box is '
              'cut, on the handedness of the box, nor on a change of length unit, and is normalised in the same way in small systems with copies.',
    quantifier=dict(over=['inputs', 'configurations'], text='all positions, boxes and histogram limits'),
    why_tests_cant='The tests look for the position of the first peaks of two crystals; heights and normalisation are not looked at.',
    anchors=dict(files=['src/pyscal/core.py', 'src/pyscal/system.cpp'],
                 mechanism=[dict(name='calculate_rdf', where='core.py'), dict(name='get_pairdistances, get_abs_distance', where='system.cpp')],
                 observe_at=['System.calculate_rdf']))

BOUNDS = ('3 to 4 atoms on a line across the boundary with a symbolic position, symbolic length unit, orthogonal, sheared and left-handed boxes, up to 5 '
          'bins; small systems of 1 and 2 atoms with 27 copies')
OUTSIDE = 'distances within 1e-6 of the limit of a bin (except the largest distance as default limit); rounding'
ASSUMPTIONS = ['arithmetic on doubles is exact real arithmetic']

PI = 3.141592653589793
BOXES = {'ortho': [[12, 0, 0], [0, 10, 0], [0, 0, 11]], 'sheared': [[12, 0, 0], [2, 10, 0], [0, 1, 11]], 'left': [[12, 0, 0], [0, -10, 0], [1, 0, 11]]}
VOL = {'ortho': 1320, 'sheared': 1320, 'left': 1320}


def counts(E, ds, lo, hi, bins, default):
    """pairs per bin"""
    w = E.div(hi - lo, bins)
    out = [0] * bins
    for d in ds:
        if default and not any(bool(x > d) for x in ds):
            out[-1] += 1
            continue
        for k in range(bins + 1):
            E.apart(d, lo + w * k)
        if d < lo:
            continue
        for k in range(bins):
            if d < lo + w * (k + 1):
                out[k] += 1
                break
    return out


def verify(E, rdf, r, cs, lo, hi, bins, density):
    w = E.div(hi - lo, bins)
    E.same(len(rdf), bins, 'number of values')
    E.same(len(r), bins, 'number of radii')
    for k in range(bins):
        a, b = lo + w * k, lo + w * (k + 1)
        E.eq(r[k], a, 'radius %d' % k)
        E.eq(rdf[k] * (E.const(4 * PI / 3) * (b ** 3 - a ** 3) * density), E.const(cs[k]), 'radial distribution function in bin %d' % k)


def line(E, box, n, bins, lo, hi):
    """atoms on a line along the first vector, one of them anywhere on it"""
    x = E.real('x', 0, 12)
    xs = [E.const(v) for v in (1, 3.5, 10.25)[:n - 1]] + [x]
    ds = []
    for i in range(n):
        for j in range(i):
            d = E.abs(xs[i] - xs[j])
            E.apart(d, E.const(6))
            ds.append(d if d < 6 else 12 - d)
    for i, d in enumerate(ds):
        E.assume(d > 1e-3)
    s = system(E, BOXES[box], [[v, 0, 0] for v in xs])
    kw = {}
    if lo is not None:
        kw['histomin'] = lo
    if hi is not None:
        kw['histomax'] = hi
    lo = E.const(lo or 0)
    if hi is None:
        top = ds[0]
        for d in ds[1:]:
            E.apart(d, top)
            if d > top:
                top = d
    else:
        top = E.const(hi)
    rdf, r = s.calculate_rdf(histobins=bins, **kw)
    verify(E, rdf, r, counts(E, ds, lo, top, bins, hi is None), lo, top, bins, E.frac(n * (n - 1), 2 * VOL[box]))
    E.done()


def unit(E, box, bins):
    """a change of the unit of length"""
    a = E.real('a', 0.5, 2)
    p = [[1, 2, 3], [3, 4, 4], [11, 9, 10.5]]
    s = system(E, [[a * c for c in v] for v in BOXES[box]], [[a * c for c in v] for v in p])
    rdf, r = s.calculate_rdf(histobins=bins, histomax=6 * a)
    t = system(E, BOXES[box], p)
    want, q = t.calculate_rdf(histobins=bins, histomax=6)
    for k in range(bins):
        E.eq(r[k], a * q[k], 'radius %d' % k)
        E.eq(rdf[k], want[k], 'radial distribution function in bin %d' % k)
    E.check(sum(want) > 0, 'some pairs are counted')
    E.done()


def copies(E, n):
    """one or two atoms per cell"""
    a = E.real('a', 2.75, 3.25)
    pos = [[0.5, 0.5, 0.5], [2, 0.5, 0.5]][:n]
    s = small_system(E, ortho_box(a, 4, 5), pos)
    rdf, r = s.calculate_rdf(histobins=4, histomin=1, histomax=3.5)
    # neighbors of an atom of the lattice at a distance between 1 and 3.5
    ds = [a] * 2 + ([E.const(1.5), a - 1.5] if n == 2 else [])
    N = 27 * n
    cs = counts(E, ds, E.const(1), E.const(3.5), 4, False)
    verify(E, rdf, r, [c * N / 2 for c in cs], E.const(1), E.const(3.5), 4, E.div(N * (N - 1), 2 * 27 * 20 * a))
    E.done()


HARNESSES = [
    H('line', line, [{'box': b, 'n': n, 'bins': k, 'lo': lo, 'hi': hi} for b, n, k, lo, hi in
                     (('ortho', 3, 4, None, 6), ('sheared', 3, 3, 1.5, 5), ('left', 3, 3, None, None), ('sheared', 4, 2, None, 4.5))],
      [{'box': b, 'n': n, 'bins': k, 'lo': lo, 'hi': hi} for b in BOXES for n in (3, 4) for k, lo, hi in
       ((5, None, 6), (3, 1.25, 5), (4, None, None), (1, 0.5, None))]),
    H('unit', unit, [{'box': b, 'bins': 5} for b in BOXES]),
    H('copies', copies, [{'n': 1}, {'n': 2}]),
]
