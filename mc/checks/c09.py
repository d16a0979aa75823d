"""C09: intersections and Cartesian products of every pair of polyhedra of finite pools denote exactly the described sets."""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Cases, Layer, need
from ..ref import Poly, rank
from .. import ngon, poly
from .c05 import judge_contains
from .c01 import box
from .c08 import POOLS


def attrs(p):
    return [np.array(x, copy=True) for x in (p.A, p.b, p.C, p.d)]


def same_attrs(a, b):
    return all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def warm(p, e, n):
    """Asks the cached questions of an operand (so that anything remembered would be visible in the result)."""
    p.empty
    p.bounded
    if not e or (len(e) < n and rank([list(c) for c, _ in e]) == len(e)):
        p.radius
        p.center
        p.vertices


def judge(q, ineqs, eqs, n, ctx, deep):
    r = Poly.build(n, ineqs, eqs)
    poly.same_set(q, ineqs, eqs, r, what='result')
    ctx.outcome('empty' if r.empty else ('bounded' if r.bounded else 'unbounded'))
    need(bool(q.empty) == r.empty, 'result.empty is %r, exact %r', q.empty, r.empty)
    need(bool(q.bounded) == r.bounded, 'result.bounded is %r, exact %r', q.bounded, r.bounded)
    ctx.step(3)
    if deep:
        class Mute(object):
            step = staticmethod(ctx.step)
            skip = staticmethod(ctx.skip)
            outcome = staticmethod(lambda t: None)
        if not eqs or (len(eqs) < n and rank([list(c) for c, _ in eqs]) == len(eqs)):
            poly.judge_chebyshev(q, ineqs, eqs, n, Mute)
            poly.judge_vertices(q, ineqs, eqs, n, r, Mute, tol=1e-5)


class Op(Layer):
    def __init__(self, op, pool1, pool2, n1, n2, name, diagonal=False):
        self.diagonal = diagonal
        self.op, self.p1, self.p2, self.n1, self.n2, self.name = op, pool1, pool2, n1, n2, name
        self.bounds = '%s of %s (%d x %d polyhedra, dimension %d and %d), operands fresh and previously queried' % (op, 'an object with itself' if diagonal else 'all ordered pairs', len(pool1), len(pool2), n1, n2)

    def shards(self, tier):
        return list(range(len(self.p1)))

    def explore(self, i, ctx):
        for j in range(len(self.p2)):
            if self.diagonal and i != j:
                continue
            ctx.state()
            for w in (4, 7) if self.diagonal else (0, 1, 2, 3) if (i + j) % 5 == 0 or i == j or ctx.tier == 'thorough' else (3,):
                ctx.case(self, [i, j, w])
            if len(ctx.violations) >= 5:
                return

    def check(self, case, ctx):
        i, j, w = case
        _, i1, e1 = self.p1[i]
        _, i2, e2 = self.p2[j]
        n1, n2 = self.n1, self.n2
        P1, P2 = poly.real(i1, e1, n1), poly.real(i2, e2, n2)
        if w & 4:
            P2 = P1     # of an object with itself
        if w & 1:
            warm(P1, e1, n1)
        if w & 2:
            warm(P2, e2, n2)
        a1, a2 = attrs(P1), attrs(P2)
        if self.op == 'intersection':
            Q = P1.intersection(P2)
            n = n1
            ineqs, eqs = list(i1) + list(i2), list(e1) + list(e2)
        else:
            Q = P1.cartesian_product(P2)
            n = n1 + n2
            l = lambda rows: [(tuple(a) + (0,) * n2, b) for a, b in rows]
            r = lambda rows: [((0,) * n1 + tuple(a), b) for a, b in rows]
            ineqs, eqs = l(i1) + r(i2), l(e1) + r(e2)
        ctx.step()
        need(Q is not P1 and Q is not P2, 'result is one of the operands')
        need(Q.A.shape[1] == n, 'result has %d columns, expected %d', Q.A.shape[1], n)
        judge(Q, ineqs, eqs, n, ctx, w in (3, 7) and (n < 4 or (i + j) % 4 == 0))
        pts = [list(x) for x in itertools.product((-1., 0., .5, 1.), repeat=n)] if n < 4 else [[(-1.) ** k * v for k in range(n)] for v in (0., .5, 1.)] + [[0.] * n]
        judge_contains(Q, ineqs, eqs, pts[::(1 if n < 3 else 5)], _Quiet(ctx))
        # the operands are what they were, and still answer correctly after the result is modified
        need(same_attrs(attrs(P1), a1) and same_attrs(attrs(P2), a2), 'an operand was modified')
        Q.add_upper_bound(np.array([-7.] * n))
        Q.normalize()
        need(same_attrs(attrs(P1), a1) and same_attrs(attrs(P2), a2), 'modifying the result modified an operand')
        for P, ii, ee, nn in ((P1, i1, e1, n1), (P2, i2, e2, n2)):
            x = Poly.build(nn, ii, ee)
            need(bool(P.empty) == x.empty and bool(P.bounded) == x.bounded, 'operand answers wrongly after the operation')
        ctx.step(6)


class _Quiet(object):
    def __init__(self, ctx):
        self.step = ctx.step

    def outcome(self, t):
        pass


def thin(pool, k):
    return pool[::k]


def big(n):
    """Large, nearly equal bounds (differences far above roundoff, far below the data), and rows of different lengths."""
    out = []
    e = lambda i, s=1.: tuple(s if k == i else 0. for k in range(n))
    for c, g in ((1024., 2. ** -7), (-1024., 2. ** -8), (2. ** 17, 1.), (1., 2. ** -15)):
        for k in (0, 1, -1):
            v = c + k * g
            out.append((n, [(e(0), v)], []))
            out.append((n, [(e(0), v), (e(0, -1.), 4. - v)] + [r for i in range(1, n) for r in ((e(i), 1.), (e(i, -1.), 2.))], []))
            out.append((n, [(e(n - 1, 2.), 2 * v), (e(n - 1, -.5), .5 - .5 * v)], []))
            out.append((n, box(n, -2., 2. ** 18), [(e(0), v)]))
    return out


P = POOLS
LAYERS = [Op('intersection', P[1], P[1], 1, 1, 'intersection-1d'), Op('intersection', P[2], P[2], 2, 2, 'intersection-2d'),
          Op('intersection', P[3], P[3], 3, 3, 'intersection-3d'), Op('intersection', thin(P[4], 2), thin(P[4], 3), 4, 4, 'intersection-4d'),
          Op('product', thin(P[1], 2), thin(P[1], 3), 1, 1, 'product-1d-1d'), Op('product', thin(P[2], 3), thin(P[1], 5), 2, 1, 'product-2d-1d'),
          Op('product', thin(P[1], 5), thin(P[2], 3), 1, 2, 'product-1d-2d'), Op('product', thin(P[2], 5), thin(P[2], 4), 2, 2, 'product-2d-2d'),
          Op('product', thin(P[3], 4), thin(P[2], 8), 3, 2, 'product-3d-2d'), Op('product', thin(P[1], 9), thin(P[3], 4), 1, 3, 'product-1d-3d'),
          Op('intersection', big(1), big(1), 1, 1, 'intersection-large-1d'), Op('intersection', big(2), big(2), 2, 2, 'intersection-large-2d'), Op('product', big(1), big(1), 1, 1, 'product-large-1d'),
          Op('product', big(2)[::5], big(1)[::3], 2, 1, 'product-large-2d-1d')]
for _n in (1, 2, 3, 4):
    LAYERS.append(Op('intersection', P[_n], P[_n], _n, _n, 'intersection-self-%dd' % _n, diagonal=True))
    if _n < 4:
        LAYERS.append(Op('product', P[_n], P[_n], _n, _n, 'product-self-%dd' % _n, diagonal=True))


def check_polygon(case, ctx):
    """Sets with many inequalities: the product with a turned copy, the intersection with a moved copy, in both orders."""
    m, k = case
    rows, V = ngon.polygon(m)
    n = len(rows)
    turn = [rows[(i + 7) % n] for i in range(n)]
    order = ngon.shuffle(rows, k)
    P, Q = ngon.real([rows[j] for j in order]), ngon.real([(a, 2 * b) for a, b in turn])
    V = np.array([[float(t) for t in v] for v in V])
    ctx.state()
    R = P.cartesian_product(Q)
    ctx.step()
    need(R.A.shape == (2 * n, 4) and R.b.shape == (2 * n,) and R.C.shape[0] == 0, 'product of %d and %d inequalities has %s', n, n, R.A.shape)
    e = 2. ** -8
    for i in range(n):
        v, w = V[i], 2 * V[(i + 5) % n]
        need(R.contains(np.concatenate((v * (1 - e), w * (1 - e)))), 'product of polygons with %d edges: a pair of points of the two is not in it', n)
        need(not R.contains(np.concatenate((v * (1 + e), w * (1 - e)))) and not R.contains(np.concatenate((v * (1 - e), w * (1 + e)))), 'product of polygons with %d edges: a pair with a point outside is in it', n)
        ctx.step(3)
    # moved by (1/2, 1/4)
    s = np.array([.5, .25])
    M = ngon.real([(a, b + Fraction(a[0], 2) + Fraction(a[1], 4)) for a, b in turn])
    for I in (P.intersection(M), M.intersection(P)):
        need(I.A.shape[1] == 2, 'intersection has %d columns', I.A.shape[1])
        for i in range(n):
            for x in (V[i] * (1 - e), V[i] * (1 + e), V[i] * (1 - e) + s, V[i] * (1 + e) + s):
                A, b = ngon.arrays(rows)
                want = max((A.dot(x) - b).max(), (A.dot(x - s) - b).max())
                if abs(want) > 1e-6:
                    need(bool(I.contains(x)) == (want < 0), 'intersection of polygons with %d edges: contains(%r) is %r', n, x.tolist(), I.contains(x))
                ctx.step()
    ctx.outcome('%d edges' % n)


LAYERS.append(Cases('polygon', ngon.gen, check_polygon, ngon.BOUNDS + '; products with a turned copy, intersections with a moved one'))
