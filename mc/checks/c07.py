"""C07: emptiness and boundedness of every polyhedron in bounded constraint trees, against exact double description."""
import numpy as np
from ..core import Cases, Layer, need
from ..ref import Poly
from .. import derived, space, poly
from .c01 import box


class PolyTree(Layer):
    """Walks a constraint tree; subclasses judge the real Polyhedron of every node in query()."""

    def __init__(self, name, tree, quick=True, dtype=float):
        self.name, self.tree, self.quick, self.dtype = name, tree, quick, dtype
        self.bounds = tree.describe()

    def shards(self, tier):
        return [] if (tier == 'quick' and not self.quick) else self.tree.shards()

    _p = None

    def explore(self, shard, ctx):
        for ineqs, eqs, p in self.tree.walk(shard):
            ctx.state()
            ctx.step()
            self._p = p
            ctx.case(self, [ineqs, eqs])
            self._p = None
            if len(ctx.violations) >= 5:
                return

    def check(self, case, ctx):
        ineqs, eqs = case
        n = self.tree.n
        r = self._p if self._p is not None else Poly.build(n, ineqs, eqs)
        self.query(case, ineqs, eqs, n, r, ctx)

    def query(self, case, ineqs, eqs, n, r, ctx):
        raise NotImplementedError


class EmptyBounded(PolyTree):
    def query(self, case, ineqs, eqs, n, r, ctx):
        p = poly.real(ineqs, eqs, n, self.dtype)
        e, b = r.empty, r.bounded
        ctx.outcome('empty' if e else ('bounded' if b else 'unbounded'))
        # both query orders: each on a fresh object
        need(bool(p.empty) == e, 'empty is %r, exact answer %r', p.empty, e)
        need(bool(p.bounded) == b, 'bounded is %r, exact answer %r', p.bounded, b)
        q = poly.real(ineqs, eqs, n, self.dtype)
        need(bool(q.bounded) == b, 'bounded (asked first) is %r, exact answer %r', q.bounded, b)
        need(bool(q.empty) == e, 'empty (asked after bounded) is %r, exact answer %r', q.empty, e)
        # and on an object that was asked something else before
        k = poly.mix(case)
        q = poly.warm(poly.real(ineqs, eqs, n, self.dtype), eqs, n, k)
        need(bool(q.empty) == e, 'empty (after asking %r) is %r, exact answer %r', poly.WARM[k % len(poly.WARM)], q.empty, e)
        need(bool(q.bounded) == b, 'bounded (after asking %r) is %r, exact answer %r', poly.WARM[k % len(poly.WARM)], q.bounded, b)
        ctx.step(6)
        ctx.traces += 2     # three objects, three query orders


def trees(make):
    T = space.Tree
    L = space.letters
    ax3 = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    out = [
        make('seq-2d', T(2, L(2, (0, 1, -1)), 2), True),
        make('set-2d', T(2, L(2, (1, -1), zero=False), 4, ordered=False, min_depth=3), True),
        make('set5-2d', T(2, L(2, (1, -2), zero=False), 5, ordered=False, min_depth=5), True),
        make('eq-2d', T(2, L(2, (1, -1), zero=False), 2, eqs=space.eq_lists(2, maxlen=1)[1:]), True),
        make('eq2-2d', T(2, L(2, (1, -1), zero=False), 1, eqs=space.eq_lists(2, maxlen=2)[1:]), True),
        make('1d', T(1, L(1, (0, 1, -1), vals=(-2, -1, 0, 1)), 3, eqs=[(), (((1,), 1),), (((0,), 0),), (((2,), -1), ((1,), 1))]), True),
        make('set-3d', T(3, L(3, (1, -1), only=ax3 + [(1, 1, 1), (-1, -1, -1), (1, -1, 0), (0, 1, -2)]), 4, ordered=False, min_depth=4), True),
        make('set5-3d', T(3, L(3, (1, 0), only=ax3 + [(1, 1, 1), (-1, -1, -1)]), 6, ordered=False, min_depth=5), True),
        make('eq-3d', T(3, L(3, (1,), only=ax3 + [(1, 1, 1), (-1, 1, 0)]), 4, ordered=False, min_depth=2,
                        eqs=space.eq_lists(3, maxlen=2, lets=[((1, 1, 1), 0), ((1, -1, 0), 0), ((0, 1, 2), 1), ((1, 0, 0), -1), ((2, 2, 2), 1)])[1:]), True),
        make('eq3-3d', T(3, L(3, (1, -1), only=ax3), 1, eqs=space.eq_lists(3, maxlen=3, lets=[((1, 1, 1), 0), ((1, -1, 0), 0), ((0, 1, 2), 1), ((0, 0, 1), 1)])[21:]), True),
    ]
    for n in (1, 2, 3, 4):
        e1 = tuple([1] * n)
        lists = [()] + [((e1, 1),), ((tuple([0] * n), 0),), ((e1, 1), (tuple([2] * n), 2)), ((e1, 1), (e1, 0))] + [tuple((tuple(int(i == j) for j in range(n)), i) for i in range(k)) for k in range(1, n + 1)]
        out.append(make('none-%dd' % n, T(n, [], 0, eqs=lists), True))
    for n in (4, 5, 6):
        cuts = [(tuple([1] * n), 1), (tuple([-1] * n), 0), (tuple([1, -1] + [0] * (n - 2)), 0), (tuple([-2] + [0] * (n - 2) + [1]), -1), (tuple([0] * (n - 1) + [1]), -2), (tuple([0] * n), 1)]
        eqs = [(), ((tuple([1] * n), 0),), ((tuple([1] * (n - 1) + [-1]), 1), (tuple([0, 1, 1] + [0] * (n - 3)), 0)),
               ((tuple([1, 1] + [0] * (n - 2)), 0), (tuple([0, 0, 1] + [0] * (n - 3)), 1), (tuple([0, 0, 0, 2] + [0] * (n - 4)), -1))]
        out.append(make('box-%dd' % n, T(n, cuts, 2, eqs=eqs, ordered=False, base=box(n, -1, 2)), True))
        for k in range(2 * n):
            bb = box(n, -1, 2)
            del bb[k]
            out.append(make('halfbox%d-%dd' % (k, n), T(n, cuts, 1, eqs=eqs, ordered=False, base=bb), True))
        if n < 6:
            simplex = [(tuple([-int(i == j) for j in range(n)]), 0) for i in range(n)] + [(tuple([1] * n), 1)]
            out.append(make('simplex-%dd' % n, T(n, cuts, 2, eqs=eqs, ordered=False, base=simplex), True))
            out.append(make('halfsimplex-%dd' % n, T(n, cuts, 2, eqs=eqs, ordered=False, base=simplex[1:]), True))
    g = 2. ** -12
    out.append(make('thin-1d', T(1, L(1, (0., 1., 1. + g, -1., -1. - g, g, -g), vals=(-1, 1)), 3, ordered=False, min_depth=2), True))
    out.append(make('thin-2d', T(2, L(2, (1., -1. - g, -g), only=[(1, 0), (-1, 0), (0, 1), (0, -1), (-1, -1), (1, 1)]), 4, ordered=False, min_depth=3), True))
    # thinner still, and corners cut off by very little (nearby vertices)
    h = 2. ** -16
    out.append(make('thinner-2d', T(2, L(2, (1., -1. - h), only=[(1, 0), (-1, 0), (0, 1), (0, -1)]) + [((1, 1), 2. - h), ((-1, 1), -h), ((-1, -1), 2. + h)], 5, ordered=False, min_depth=3), True))
    for n in (2, 3):
        for g2 in (2. ** -8, 2. ** -11, 2. ** -13):
            out.append(make('corner%g-%dd' % (g2, n), T(n, [(tuple([1] * n), n - g2), (tuple([1, 1] + [0] * (n - 2)), 2 - g2), (tuple([-1] + [1] * (n - 1)), n - 2 * g2), (tuple([1, -1] + [0] * (n - 2)), 0)], 3, ordered=False, base=box(n, -1, 1)), True))
    # sets far from the origin
    for far in (2. ** 10, 2. ** 14, 2. ** 17, -2. ** 14):
        for n in (1, 2, 3):
            x0 = [far * (1 if k % 2 == 0 else -.5) for k in range(n)]
            mv = lambda a, t: (a, t + sum(u * v for u, v in zip(a, x0)))
            lets = [mv(a, t) for a, t in [(tuple([1] * n), 1), (tuple([-1] * n), 0), (tuple([1] + [0] * (n - 1)), -2), (tuple([0] * (n - 1) + [-1]), .5), (tuple([1] + [-1] * (n - 1)), 0)]]
            bx = [mv(a, t) for a, t in box(n, -1, 2)]
            out.append(make('far%g-%dd' % (far, n), T(n, lets, 2, ordered=False, base=bx, min_depth=0), True))
            out.append(make('farhalf%g-%dd' % (far, n), T(n, lets, 2, ordered=False, base=bx[1:], min_depth=0), True))
    # nearly parallel facets: bounded / unbounded by a thin angle
    out.append(make('angle-2d', T(2, L(2, (1.,), only=[(1., 0.), (-1., 0.), (-1., 2. ** -8), (-1., -2. ** -8), (0., 1.), (2. ** -8, -1.), (-2. ** -8, 1.), (-2. ** -8, -1.)]), 4, ordered=False, min_depth=2), True))
    # rows of very different lengths (the set does not depend on the length of a row)
    for sc in (2. ** -14, 2. ** -9, 2. ** 9):
        for k in range(4):
            dirs = [(1., 0.), (-1., 0.), (0., 1.), (0., -1.), (1., 1.), (-1., 2.)]
            lets = [(tuple(t * (sc if i % 4 == k else 1.) for t in a), b * (sc if i % 4 == k else 1.)) for i, a in enumerate(dirs) for b in (1., -2.)]
            out.append(make('mixed%d-%g' % (k, sc), T(2, lets, 4, ordered=False, min_depth=3), True))
        dirs = [(1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.), (0., 0., 1.), (-1., -1., -1.), (0., 0., -1.)]
        lets = [(tuple(t * (sc if i in (1, 5) else 1.) for t in a), b * (sc if i in (1, 5) else 1.)) for i, a in enumerate(dirs) for b in (1.,)]
        out.append(make('mixed-3d-%g' % sc, T(3, lets, 7, ordered=False, min_depth=4, eqs=[(), (((sc, sc, 0.), 0.),)]), True))
    # many rows: redundant families around a polygon, with one side left open or not
    for k in (10, 25):
        import math
        ring = [(tuple(round(64 * f(2 * math.pi * i / k)) / 64. for f in (math.cos, math.sin)), 2.) for i in range(k)]
        out.append(make('ring%d' % k, T(2, [((1, 1), -4), ((0, 1), -1), ((1, 0), 0)], 2, ordered=False, base=ring, eqs=[(), (((1, -1), 0),)]), True))
        out.append(make('arc%d' % k, T(2, [((1, 1), -4), ((0, 1), -1), ((1, 0), 0)], 2, ordered=False, base=ring[:k // 2 + 1], eqs=[(), (((1, -1), 0),)]), True))
        out.append(make('fan%d' % k, T(2, [((1, 1), -4), ((0, 1), -1), ((1, 0), 0)], 2, ordered=False, base=ring[:k // 3], eqs=[(), (((1, -1), 0),)]), True))
    for k in (-6, 6):
        m = 2. ** k
        out.append(make('scale%d' % k, T(2, L(2, (m, -m), only=[(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 2)]), 4, ordered=False, min_depth=3), True))
    return out


LAYERS = trees(lambda name, tree, quick: EmptyBounded(name, tree, quick))
LAYERS.append(EmptyBounded('int-2d', space.Tree(2, space.letters(2, (1, -1), zero=False), 3, ordered=False), dtype=int))


def check_derived(case, ctx):
    ctx.state()
    for order in (('empty', 'bounded'), ('bounded', 'empty'), ('vertices', 'bounded', 'empty'), ('radius', 'empty', 'bounded')):
        p = derived.build(case)
        r = poly.exact(p)
        for q in order:
            v = getattr(p, q)
            ctx.step()
            if q in ('empty', 'bounded'):
                need(bool(v) == getattr(r, q), '%s is %r (asked as %r), exact answer %r', q, v, order, getattr(r, q))
    ctx.outcome('empty' if r.empty else 'bounded' if r.bounded else 'unbounded')
    ctx.traces += 3


LAYERS.append(Cases('derived', derived.gen, check_derived, derived.BOUNDS))
