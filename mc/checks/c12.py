"""C12: vertices of every polytope in bounded constraint trees, and polyhedra from convex hulls, against exact conversion."""
import itertools
import numpy as np
from ..core import Cases, need
from ..ref import Poly, extreme_points, rank
from .. import derived, faces, ngon, space, poly
from .c07 import PolyTree, trees
from .c11 import build, gen_ladder
from .c01 import box
from .c10 import independent


class Vertices(PolyTree):
    def query(self, case, ineqs, eqs, n, r, ctx):
        p = poly.real(ineqs, eqs, n, self.dtype)
        poly.judge_vertices(p, ineqs, eqs, n, r, ctx)
        # a polyhedron whose center / boundedness was asked before has the same vertices
        if r.bounded and not r.empty and independent(eqs, n) and p.vertices is not None:
            q = poly.real(ineqs, eqs, n, self.dtype)
            q.radius, q.bounded, q.center
            poly.judge_vertices(q, ineqs, eqs, n, r, ctx)
            ctx.traces += 1


def keep(name):
    return not name.startswith(('set5-2d', 'set5-3d'))


def check_ladder(case, ctx):
    ineqs, eqs, n = build(case)
    ctx.state()
    r = Poly.build(n, ineqs, eqs)
    poly.judge_vertices(poly.real(ineqs, eqs, n), ineqs, eqs, n, r, ctx, tol=2.e-6 * max(1., abs(case[2]), case[1] / 256.))


# -- round trip: V -> H -> V ------------------------------------------------------------------------------------------------

def point_sets(tier):
    """Point sets of dimension n: every subset of a small grid (2d), subsets of the cube/cross polytope corners (3d..5d)."""
    g2 = [list(t) for t in itertools.product((0, 1, 2), repeat=2)]
    for k in range(3, 8 if tier == 'quick' else 10):
        for c in itertools.combinations(g2, k):
            yield 2, [list(x) for x in c]
    c3 = [list(t) for t in itertools.product((-1, 1), repeat=3)] + [[0, 0, 0], [0, 0, 2], [3, 1, 0]]
    for k in range(4, 7 if tier == 'quick' else 12):
        for c in itertools.combinations(c3, k):
            yield 3, [list(x) for x in c]
    for n in (4, 5):
        e = [[int(i == j) for j in range(n)] for i in range(n)]
        pts = e + [[-2 * t for t in r] for r in e] + [[1] * n, [0] * n]
        for drop in itertools.combinations(range(len(pts)), 2 if n == 5 else 3):
            yield n, [p for i, p in enumerate(pts) if i not in drop]


def gen_hull(tier):
    for n, pts in point_sets(tier):
        if rank([[a - b for a, b in zip(p, pts[0])] for p in pts[1:]]) == n:
            yield [n, pts, 1., 0.]
            if len(pts) <= n + 3:
                yield [n, pts, 1. / 16, 5.]
                yield [n, pts, 64., -200.]


def gen_close(tier):
    """Corners and edges cut by very little: points that differ by 2^-11..2^-15 in one or all coordinates."""
    for g in (2. ** -11, 2. ** -15) if tier == 'quick' else (2. ** -9, 2. ** -11, 2. ** -13, 2. ** -15):
        for n in (2, 3):
            base = [list(map(float, t)) for t in itertools.product((-1, 1), repeat=n)]
            for k in range(1, 3):
                for cut in itertools.combinations(range(len(base)), k):
                    pts = [p for i, p in enumerate(base) if i not in cut]
                    for i in cut:
                        for c in range(n):
                            q = list(base[i])
                            q[c] -= g * q[c]
                            pts.append(q)
                    yield [n, pts, 1., 0.]
            for i in range(len(base)):
                for d in itertools.product((0., g, -g), repeat=n):
                    if any(d):
                        yield [n, base + [[a + b for a, b in zip(base[i], d)]], 1., 0.]


def gen_many(tier):
    """Many points: polygons on a parabola and its mirror image, grids, cyclic polytopes, cubes with their edge and face centers."""
    for m in (8, 13, 21, 34) if tier == 'quick' else (8, 13, 16, 21, 34, 55):
        par = [[t, t * t / 8.] for t in range(m)]
        yield [2, par, 1., 0.]
        yield [2, par + [[t, m * t / 8. + m - t * t / 16.] for t in range(m)], .25, -3.]
        yield [2, [[(5 * t) % m, ((5 * t) % m) ** 2 / 8.] for t in range(m)][::-1], 1., 1.]
    for k in (4, 5, 6):
        yield [2, [list(t) for t in itertools.product(range(k), repeat=2)], 1., 0.]
        yield [2, [list(t) for t in itertools.product(range(k), repeat=2) if t not in ((0, 0), (k - 1, k - 1))], .5, -1.]
    g = [list(t) for t in itertools.product((-1, 0, 1), repeat=3)]
    for k in range(len(g)):
        yield [3, g[k:] + g[:k], 1., 0.]
        yield [3, [p for i, p in enumerate(g) if i != k], .5, 2.]
    for m in (8, 14) if tier == 'quick' else (8, 14, 20):
        yield [3, [[t, t * t / 8., t ** 3 / 64.] for t in range(-(m // 2), m - m // 2)], 1., 0.]
    yield [4, [list(t) for t in itertools.product((-1, 1), repeat=4)], 1., 0.]
    yield [4, [[0, 0, 0, 0]] + [list(t) for t in itertools.product((-1, 1), repeat=4)][1:], 1., 0.]


def check_hull(case, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n, pts, sc, sh = case
    pts = [[sc * t + sh for t in p] for p in pts]
    ctx.state()
    p = Polyhedron.from_convex_hull([np.array(v) for v in pts])
    ctx.step()
    from fractions import Fraction
    ex = [[Fraction(t) for t in v] for v in pts]
    need(p.A.shape[1] == n and p.C.shape[0] == 0, 'hull has A %s, C %s', p.A.shape, p.C.shape)
    poly.describes_hull(p.A, p.b, ex, tol=1.e-6, what='convex hull')
    ext = extreme_points([tuple(v) for v in ex])
    ctx.outcome('%d of %d extreme' % (len(ext), len(pts)))
    poly.same_points(p.vertices, ext, 1.e-5, 'vertices of the convex hull')
    need(bool(p.bounded) and not bool(p.empty), 'convex hull reported unbounded or empty')
    for v in pts:
        need(bool(p.contains(np.array(v), tol=1.e-6 * (1. + abs(sh)))), 'convex hull does not contain its point %r', v)
    c = np.mean(np.array(pts), axis=0)
    need(bool(p.contains(c)), 'convex hull does not contain the mean of its points')
    ctx.step(4 + len(pts))


def gen_flow(tier):
    """H -> V -> H for polytopes given by a box and up to two cuts."""
    for n in (2, 3, 4):
        rows = [tuple([1] * n), tuple([-1] * n), tuple([1, -1] + [0] * (n - 2)), tuple([-2] + [0] * (n - 2) + [1])]
        lets = [(a, b) for a in rows for b in (1, 0)]
        for k in (0, 1, 2):
            for cuts in itertools.combinations(lets, k):
                yield [n, [list(map(list, box(n, -1, 2)))[i] for i in range(2 * n)] + [list(c) for c in cuts]]


def check_flow(case, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n, ineqs = case
    r = Poly.build(n, ineqs)
    if r.dim() < n:
        ctx.skip('flat')
        return
    ctx.state()
    p = poly.real(ineqs, [], n)
    poly.same_points(p.vertices, r.vertices(), 1e-6)
    q = Polyhedron.from_convex_hull(p.vertices)
    poly.describes_hull(q.A, q.b, r.vertices(), what='hull of the vertices')
    poly.same_points(q.vertices, r.vertices(), 1e-5, 'vertices of the hull of the vertices')
    need(bool(p.is_included_in(q, tol=1e-5)) and bool(q.is_included_in(p, tol=1e-5)), 'hull of the vertices is a different set')
    ctx.step(5)
    ctx.outcome('round trip')


LAYERS = trees(lambda name, tree, quick: Vertices(name, tree, keep(name)))
LAYERS.append(Vertices('int-2d', space.Tree(2, space.letters(2, (1, -1), zero=False), 4, ordered=False), dtype=int))
LAYERS.append(Cases('ladder', gen_ladder, check_ladder, 'as C11: boxes/simplices/half-boxes, dimension 1..6, scales, shifts, 0..n-1 equalities'))
LAYERS.append(Cases('hull', gen_hull, check_hull, 'all subsets of the 3x3 grid, of 11 points in 3d, of star sets in 4d and 5d; scaled and shifted copies'))
LAYERS.append(Cases('hull-many', gen_many, check_hull, 'hulls of 8..68 points: parabolas in three orders, full and cut grids, the 27 points of the 3x3x3 grid in every rotation and with one left out, cyclic polytopes, the 4d cube'))
LAYERS.append(Cases('hull-close', gen_close, check_hull, 'squares and cubes with corners cut by 2^-11..2^-15, or with a further point that close to a corner'))
LAYERS.append(Cases('round-trip', gen_flow, check_flow, 'box + 0..2 cuts in dimension 2..4: vertices, hull of the vertices, vertices again'))


def check_face(case, ctx):
    p, ineqs, eqs, r = faces.build(case)
    if not faces.relevant(case, r):
        ctx.skip('not a face of this dimension')
        return
    ctx.state()
    poly.judge_vertices(p, ineqs, eqs, case[0], r, ctx, tol=1e-5)


LAYERS.append(Cases('faces', faces.gen, check_face, faces.BOUNDS))


def in_hull(x, pts):
    from scipy.optimize import nnls
    M = np.vstack((np.array(pts).T, np.ones(len(pts)))) if pts else np.zeros((len(x) + 1, 1))
    return nnls(M, np.concatenate((x, [1.])))[1]


def check_derived(case, ctx):
    """Vertices of sets made by the operations of the library (those of a projection may list further points of its boundary, see C13)."""
    ctx.state()
    for first in ((), ('center',), ('radius', 'empty')):
        p = derived.build(case)
        r = poly.exact(p)
        for q in first:
            getattr(p, q)
        v = p.vertices
        ctx.step()
        need(v is not None, 'no vertices for a bounded set with interior (after %r)', first)
        # rows that coincide up to roundoff: compare as hulls
        ex = [np.array([float(t) for t in e]) for e in r.vertices()]
        v = [np.asarray(w, dtype=float) for w in v]
        for w in v:
            need(all(float(np.dot([float(t) for t in a], w)) - float(b) < 1e-6 for a, b in poly.rows_of(p)[0]), 'listed vertex %r is not in the set', w.tolist())
        for e in ex:
            need(in_hull(e, v) < 1e-6, '%r is a point of the set outside the hull of the listed vertices %r', e.tolist(), [w.tolist() for w in v])
        if case[2][0][0] != 'project' and case[2][-1][0] != 'project':
            for w in v:
                o = [t for t in v if np.abs(t - w).max() > 1e-6]
                need(in_hull(w, o) > 1e-5, 'listed vertex %r is not an extreme point: %r', w.tolist(), [t.tolist() for t in v])
    ctx.outcome('%d vertices' % min(len(ex), 9))
    ctx.traces += 2


LAYERS.append(Cases('derived', derived.gen, check_derived, derived.BOUNDS))


def check_polygon(case, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    m, k = case
    rows, V = ngon.polygon(m)
    ctx.state()
    p = ngon.real([rows[j] for j in ngon.shuffle(rows, k)])
    poly.same_points(p.vertices, V, 1e-6)
    ctx.step()
    # the other way around: vertices, midpoints of edges and interior points
    n = len(V)
    pts = list(V) + [((V[i][0] + V[i - 1][0]) / 2, (V[i][1] + V[i - 1][1]) / 2) for i in range(0, n, 3)] + [(v[0] / 2, v[1] / 2) for v in V[::5]]
    pts = [pts[j] for j in ngon.shuffle(pts, k)]
    q = Polyhedron.from_convex_hull([np.array([float(t) for t in v]) for v in pts])
    ctx.step()
    poly.describes_hull(q.A, q.b, V)
    poly.same_points(q.vertices, V, 1e-6)
    # a prism
    A, b = ngon.arrays(rows)
    s = Polyhedron(np.vstack((np.hstack((A, np.zeros((n, 1)))), [[0., 0., 1.], [0., 0., -1.]])), np.concatenate((b, [1., .5])))
    poly.same_points(s.vertices, [v + (z,) for v in V for z in (1., -.5)], 1e-6)
    ctx.step(2)
    ctx.outcome('%d vertices' % n)


LAYERS.append(Cases('polygon', ngon.gen, check_polygon, ngon.BOUNDS + '; prisms over them; hulls of their vertices with further points'))
