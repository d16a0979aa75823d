"""C11: Chebyshev radius and center of every polyhedron in bounded constraint trees."""
from fractions import Fraction
from ..core import Cases, need
from .. import derived, faces, ngon, space, poly
from .c07 import PolyTree, trees
from .c10 import independent


class Cheb(PolyTree):
    def query(self, case, ineqs, eqs, n, r, ctx):
        if not independent(eqs, n):
            ctx.skip('equalities dependent or without nullspace')
            return
        poly.judge_chebyshev(poly.real(ineqs, eqs, n, self.dtype), ineqs, eqs, n, ctx)
        poly.judge_chebyshev(poly.real(ineqs, eqs, n, self.dtype), ineqs, eqs, n, ctx, order=('center', 'radius'))
        ctx.traces += 1


def keep(name):
    return not name.startswith(('set5-2d', 'set5-3d'))


def gen_ladder(tier):
    """Boxes, simplices, scaled and shifted copies, rows scaled unevenly, dimension 1..6, with and without equalities."""
    for n in (1, 2, 3, 4, 5, 6):
        for scale in (2. ** -6, .25, 1., 8., 2. ** 8, 2. ** 15):
            for shift in (0., 3., -100.):
                for rows in (1., 4., 1. / 16):
                    for neq in (range(0, n) if tier == 'thorough' else sorted(set((0, 1, n - 1)) & set(range(n)))):
                        for kind in ('box', 'simplex', 'halfbox', 'empty'):
                            yield [n, scale, shift, rows, neq, kind]


def build(case):
    n, scale, shift, rows, neq, kind = case
    e = lambda i, s: [s if k == i else 0 for k in range(n)]
    x0 = [shift * (1 if k % 2 else -1) for k in range(n)]
    ineqs = []
    for i in range(n):
        m = rows if i % 2 else 1.
        if kind == 'simplex':
            ineqs.append(([m * t for t in e(i, -1.)], m * (-x0[i])))
        else:
            if not (kind == 'halfbox' and i == n - 1):
                ineqs.append(([m * t for t in e(i, 1.)], m * (x0[i] + scale * (1 + .5 * i))))
            ineqs.append(([-t for t in e(i, 1.)], -x0[i] + scale))
    if kind == 'simplex':
        ineqs.append(([rows] * n, rows * (sum(x0) + scale * n)))
    if kind == 'empty':
        ineqs.append((e(0, -1.), -(x0[0] + 3 * scale)))
    eqs = []
    for k in range(neq):
        c = [0.] * n
        c[k] = 3.
        c[k + 1] = -4.
        # simplex: through an interior point
        eqs.append((c, sum(s * (t + (scale * .25 if kind == 'simplex' else 0.)) for s, t in zip(c, x0))))
    return ineqs, eqs, n


def check_ladder(case, ctx):
    ineqs, eqs, n = build(case)
    ctx.state()
    poly.judge_chebyshev(poly.real(ineqs, eqs, n), ineqs, eqs, n, ctx, tol=2.e-6 * max(1., abs(case[2]), case[1] / 256.))


LAYERS = trees(lambda name, tree, quick: Cheb(name, tree, keep(name)))
LAYERS.append(Cheb('int-2d', space.Tree(2, space.letters(2, (1, -1), zero=False), 3, ordered=False), dtype=int))
LAYERS.append(Cases('ladder', gen_ladder, check_ladder, 'boxes/half-boxes/simplices/empty sets, dimension 1..6, scales 2^-6..2^15, shifts up to 100, uneven row scaling, 0..n-1 equalities'))


def check_face(case, ctx):
    p, ineqs, eqs, r = faces.build(case)
    if not faces.relevant(case, r):
        ctx.skip('not a face of this dimension')
        return
    ctx.state()
    poly.judge_chebyshev(p, ineqs, eqs, case[0], ctx, tol=1e-5)


LAYERS.append(Cases('faces', faces.gen, check_face, faces.BOUNDS))


def check_derived(case, ctx):
    ctx.state()
    for order in (('center', 'radius'), ('radius', 'center'), ('vertices', 'center')):
        p = derived.build(case)
        ineqs, eqs = poly.rows_of(p)
        if order[0] == 'vertices':
            p.vertices
        poly.judge_chebyshev(p, ineqs, eqs, p.A.shape[1], ctx, order=tuple(o for o in order if o != 'vertices'))
    ctx.traces += 2


LAYERS.append(Cases('derived', derived.gen, check_derived, derived.BOUNDS))


def gen_polygon(tier):
    for m, k in ngon.gen(tier):
        for cut in (0, 1, 2):
            yield [m, k, cut]


def check_polygon(case, ctx):
    """Polygons with many edges, cut off so that the largest ball touches different rows."""
    m, k, cut = case
    rows, V = ngon.polygon(m)
    if cut:
        rows = rows + [((3, 1), Fraction(m, 8)), ((-1, 2), Fraction(1, 16))][:cut]
    rows = [rows[j] for j in ngon.shuffle(rows, k)]
    ctx.state()
    poly.judge_chebyshev(ngon.real(rows), rows, [], 2, ctx, order=('radius', 'center') if k == 1 else ('center', 'radius'))


LAYERS.append(Cases('polygon', gen_polygon, check_polygon, ngon.BOUNDS + ', with 0..2 cuts'))
