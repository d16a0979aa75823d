"""C08: inclusion between every ordered pair of polyhedra of finite pools, against exact support functions."""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Layer, Cases, need
from ..ref import Poly
from .. import ngon, poly, space
from .c01 import box

E3 = 2. ** -12


def pool_1d():
    lets = [((s * m,), b) for s in (1, -1) for m in (1, 2) for b in (-1, 0, 1)] + [((0,), 1), ((0,), -1)]
    for k in (0, 1, 2):
        for c in itertools.combinations(lets, k):
            yield 1, list(c), []
    for d in (-1, 0, 1):
        yield 1, [], [((1,), d)]
        yield 1, [((1,), 0)], [((-2,), d)]
    yield 1, [], [((1,), 0), ((1,), 1)]
    yield 1, [], [((0,), 0)]


def pool_2d():
    half = [(r, b) for r in ((1, 0), (-1, 0), (0, 1), (1, 1), (-1, -2)) for b in (0, 1)]
    for k in (0, 1, 2):
        for c in itertools.combinations(half, k):
            yield 2, list(c), []
    b = box(2, -1, 1)
    for cut in [None] + [((1, 1), t) for t in (-3, -2, 0, 1, 2)] + [((0, 0), 1), ((0, 0), -1), ((2, -1), 0)]:
        yield 2, b + ([cut] if cut else []), []
    for s in (.5, 1. + E3, 1. - E3, 2., 3.):
        yield 2, box(2, -s, s), []
    yield 2, [((1, 1), 1), ((1, -1), 1), ((-1, 1), 1), ((-1, -1), 1)], []
    yield 2, [((3, 3), 6), ((1, -1), 2), ((-1, 1), 2), ((-.25, -.25), .5)], []
    for e in [[((1, 0), 0)], [((1, 1), 1)], [((1, 0), 0), ((0, 1), 0)], [((1, -1), 0), ((2, -2), 0)], [((1, -1), 0), ((1, -1), 1)], [((0, 1), 3)]]:
        yield 2, [], e
        yield 2, b, e
        yield 2, [((0, -1), 0)], e


def pool_nd(n):
    e = lambda i: tuple(int(k == i) for k in range(n))
    b = box(n, -1, 1)
    yield n, [], []
    yield n, [(e(0), 0)], []
    yield n, [(e(n - 1), 1), (tuple(-t for t in e(0)), 1)], []
    yield n, b, []
    for s in (.5, 1. + E3, 1. - E3, 2.):
        yield n, box(n, -s, s), []
    for t in (-n - 1, -n, 0, 1, n):
        yield n, b + [(tuple([1] * n), t)], []
    yield n, [(tuple(-t for t in e(i)), 0) for i in range(n)] + [(tuple([1] * n), 1)], []
    yield n, [(tuple(-t for t in e(i)), 0) for i in range(n)] + [(tuple([2] * n), 1)], []
    yield n, [(tuple(-t for t in e(i)), 0) for i in range(n)], []
    if n <= 4:
        yield n, [(s, 1) for s in itertools.product((-1, 1), repeat=n)], []
        yield n, [(s, n) for s in itertools.product((-1, 1), repeat=n)], []
    for k in range(n):
        bb = list(b)
        del bb[2 * k]
        yield n, bb, []
        yield n, b, [(e(k), 0)]
        yield n, bb, [(e(k), 1)]
    for m in range(1, n + 1):
        yield n, b, [(e(i), 0) for i in range(m)]
        yield n, [], [(tuple([1] * n), 0)] + [(e(i), 0) for i in range(m - 1)]
    yield n, b, [(tuple([1] * n), 0), (tuple([2] * n), 1)]


POOLS = {1: list(pool_1d()), 2: list(pool_2d()), 3: list(pool_nd(3)), 4: list(pool_nd(4)), 5: list(pool_nd(5))}


def verdict(p1, i2, e2, tol):
    """True / False / None (too close to the tolerance to call)."""
    if p1.empty:
        return True
    res = True
    rows = list(i2) + list(e2) + [([-t for t in c], -d) for c, d in e2]
    for a, b in rows:
        s, v = p1.sup(a)
        if s == 'unbounded':
            return False
        m = float(v - poly.Fraction(b))
        nr = max(sum(float(t) ** 2 for t in a) ** .5, 1e-300)
        lo, hi = min(m, m / nr), max(m, m / nr)
        if not any(a):
            lo = hi = m
        if lo > tol + 1.e-8 * (1 + abs(m)) and lo > 1.5 * tol:
            return False
        if hi > tol * .5 + 1e-12:
            res = None
    return res


class Pairs(Layer):
    def __init__(self, n, tols, name=None, warm=False, scales=()):
        self.n, self.tols, self.warm, self.scales = n, tols, warm, scales
        self.name = name or 'pairs-%dd' % n
        self.pool = POOLS[n]
        self.bounds = 'all ordered pairs of %d polyhedra in dimension %d (unbounded, empty, flat, with 0..%d equalities, thin margins), tolerances %r' % (len(self.pool), n, n, tols)
        self._ex = {}

    def exact(self, i):
        if i not in self._ex:
            n, q, e = self.pool[i]
            self._ex[i] = Poly.build(n, q, e)
        return self._ex[i]

    def shards(self, tier):
        return list(range(len(self.pool)))

    def explore(self, i, ctx):
        for j in range(len(self.pool)):
            ctx.state()
            ctx.case(self, [i, j])
            if len(ctx.violations) >= 5:
                return

    def check(self, case, ctx):
        i, j = case
        n, i1, e1 = self.pool[i]
        _, i2, e2 = self.pool[j]
        P1, P2 = poly.real(i1, e1, n), poly.real(i2, e2, n)
        if self.scales:
            # rows of either operand of any size: the same sets
            k = poly.mix(case)
            f = lambda rows, k: [([self.scales[(k + i) % len(self.scales)] * t for t in a], self.scales[(k + i) % len(self.scales)] * b) for i, (a, b) in enumerate(rows)]
            i1, e1, i2, e2 = f(i1, k), f(e1, k + 1), f(i2, k // 5), f(e2, k // 5 + 1)
            P1, P2 = poly.real(i1, e1, n), poly.real(i2, e2, n)
        if self.warm:
            # both operands have been asked other questions before
            k = poly.mix(case)
            poly.warm(P1, e1, n, k)
            poly.warm(P2, e2, n, k // 7)
        for tol in self.tols:
            v = verdict(self.exact(i), i2, e2, 1.e-7 if tol is None else tol)
            if v is None:
                ctx.skip('within the tolerance band')
                continue
            r = P1.is_included_in(P2) if tol is None else P1.is_included_in(P2, tol=tol)
            ctx.step()
            ctx.outcome('in' if v else 'out')
            need(bool(r) == v, '{%r, %r} is_included_in {%r, %r}%s is %r, exact answer %r', i1, e1, i2, e2, '' if tol is None else ' with tol=%g' % tol, r, v)


def gen_margin(tier):
    """A body and a copy of it whose k-th facet is moved by +-2^-m: the margin decides, for every facet."""
    for n in (1, 2, 3, 4, 5):
        for m in (4, 8, 12, 16, 20) if tier == 'quick' else (2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 21):
            for neq in (0, 1) if n > 1 else (0,):
                for k in range(2 * n):
                    for s in (1, -1):
                        for sc in (1., 16., .125):
                            for w in range(1 + len(poly.WARM)):
                                if tier == 'quick' and w and (m + k + s + w) % 3:
                                    continue
                                yield [n, m, neq, k, s, sc, w]


def check_margin(case, ctx):
    n, m, neq, k, s, sc, w = case
    b1 = [(list(a), b) for a, b in box(n, -1, 2)]
    b2 = [(list(a), b) for a, b in b1]
    a, b = b2[k]
    b2[k] = ([sc * t for t in a], sc * (b + s * 2. ** -m))
    eqs = [([1] * n, 0)] if neq else []
    P1, P2 = poly.real(b1, eqs, n), poly.real(b2, [], n)
    if w:
        poly.warm(P1, eqs, n, w - 1)
        poly.warm(P2, [], n, poly.mix(case))
    ctx.state()
    p1 = Poly.build(n, b1, eqs)
    v = verdict(p1, b2, [], 1.e-7)
    if v is None:
        ctx.skip('within the tolerance band')
        return
    r = P1.is_included_in(P2)
    ctx.step()
    ctx.outcome('in' if v else 'out')
    need(bool(r) == v, 'box with facet %d moved by %g: included is %r, expected %r', k, s * 2. ** -m, r, v)


LAYERS = [Pairs(1, (None, 1.e-3)), Pairs(2, (None, 1.e-2)), Pairs(3, (None,)), Pairs(4, (None,)), Pairs(5, (None,)),
          Pairs(1, (None,), 'warm-1d', True), Pairs(2, (None,), 'warm-2d', True), Pairs(3, (None,), 'warm-3d', True), Pairs(4, (None,), 'warm-4d', True),
          Pairs(1, (None,), 'scaled-1d', scales=(.5, 8., .125)), Pairs(2, (None,), 'scaled-2d', scales=(.25, 16., .5, .0625)), Pairs(3, (None,), 'scaled-3d', scales=(.25, 32.)),
          Cases('margins', gen_margin, check_margin, 'dimension 1..5: box vs the box with one facet (each of them) moved in or out by 2^-4..2^-21, row rescaled, with and without an equality, on fresh operands and on operands asked other questions before')]


def gen_polygon(tier):
    for m, k in ngon.gen(tier):
        if m > 4 and tier == 'quick':
            continue
        yield [m, k]


def check_polygon(case, ctx):
    """A polygon with many edges, one row at a time moved in or out."""
    m, k = case
    rows, V = ngon.polygon(m)
    order = ngon.shuffle(rows, k)
    P = ngon.real([rows[j] for j in order])
    ctx.state()
    need(P.is_included_in(ngon.real(rows)), 'a polygon is not included in itself')
    n = len(rows)
    for pos in sorted(set(list(range(0, n, 5)) + [n - 1, n - 2])):
        moved = [(a, b - (Fraction(1, 64) if j == order[pos] else 0)) for j, (a, b) in enumerate(rows)]
        Q = ngon.real([moved[j] for j in order])
        need(not P.is_included_in(Q), 'row %d of %d moved inwards by 1/64, but the polygon is still included', pos, n)
        need(Q.is_included_in(P), 'row %d of %d moved inwards by 1/64, but the smaller polygon is not included', pos, n)
        ctx.step(2)
    ctx.outcome('%d edges' % n)


LAYERS.append(Cases('polygon', gen_polygon, check_polygon, ngon.BOUNDS + '; one of every fifth rows moved by 1/64'))


# -- the tolerance ------------------------------------------------------------------------------------------------------------

def gen_tol(tier):
    for n in (1, 2, 3):
        for tol in (2. ** -26, 2. ** -20, 2. ** -13, 2. ** -7, 2. ** -2):
            for f in (4., .25, -1.):
                for k in range(2 * n):
                    for eq in (0, 1, 2) if n > 1 else (0,):
                        yield [n, tol, f, k, eq]


def check_tol(case, ctx):
    """The first set sticks out of the second by a multiple of the tolerance asked for."""
    n, tol, f, k, eq = case
    b1 = [(list(a), b) for a, b in box(n, -1, 2)]
    b2 = [(list(a), b - (f * tol if i == k else 0.)) for i, (a, b) in enumerate(b1)]
    e1, e2 = [], []
    if eq == 1:
        # the facet moved is not cut off by the equality
        e1 = e2 = [([int(i == (k // 2 + 1) % n) for i in range(n)], .5)]
    elif eq == 2:
        # the first set lies off the plane of the second by that much
        a = [int(i == (k // 2 + 1) % n) for i in range(n)]
        e1, e2, b2 = [(a, .5)], [(a, .5 + f * tol)], b1
    ctx.state()
    P1, P2 = poly.real(b1, e1, n), poly.real(b2, e2, n)
    r = bool(P1.is_included_in(P2, tol))
    ctx.step()
    want = abs(f) < 1. if eq == 2 else f < 1.
    if abs(f) == 1.:
        if eq == 2:
            ctx.skip('exactly at the tolerance')
            return
    ctx.outcome('in' if want else 'out')
    need(r == want, 'set sticking out by %g: included with tolerance %g is %r', f * tol, tol, r)


LAYERS.append(Cases('tolerance', gen_tol, check_tol, 'dimension 1..3: boxes (and planes) a quarter of the tolerance and four tolerances apart, tolerances 2^-26..2^-2 given explicitly'))
