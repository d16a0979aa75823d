"""C13: orthogonal projection onto every ordered subset of the coordinates, against exact projection of the vertices."""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Cases, need
from ..ref import Poly, extreme_points, hull_facets
from .. import ngon, poly
from .c01 import box
from .c07 import PolyTree, trees


def ordered_subsets(n, ordered=True):
    for k in range(1, n + 1):
        for d in (itertools.permutations(range(n), k) if ordered else itertools.combinations(range(n), k)):
            yield list(d)


def cuts(n):
    rows = [tuple([1] * n), tuple([-1] * n), tuple([1, -1] + [0] * (n - 2)), tuple([-2] + [0] * (n - 2) + [1]), tuple([(-1) ** k * (k + 1) for k in range(n)])]
    rhs = (1, 0) if n < 4 else (1,)
    return [(a, b) for a in rows for b in rhs]


def bodies(tier):
    """(n, inequalities, ordered subsets?) of full-dimensional polytopes."""
    q = tier == 'quick'
    for n in (1, 2, 3, 4, 5):
        kmax = {1: 0, 2: 3, 3: 2 if q else 3, 4: 1 if q else 2, 5: 0 if q else 1}[n]
        for k in range(kmax + 1):
            for c in itertools.combinations(cuts(n) if n > 1 else [], k):
                yield n, box(n, -1, 2) + list(c)
        if n in (2, 3):
            # corners and edges cut by very little
            for g in (2. ** -11,) if q else (2. ** -9, 2. ** -11, 2. ** -12):
                yield n, box(n, -1, 2) + [(tuple([1] * n), 2 * n - g)]
                yield n, box(n, -1, 2) + [(tuple([1, 1] + [0] * (n - 2)), 4 - g), (tuple([-1] * n), n - g)]
                yield n, box(n, -1, 2) + [(tuple([2, -1] + [0] * (n - 2)), 5 - g)]
        # simplices and cross polytopes (fewer, slanted facets)
        e = [tuple(int(i == j) for j in range(n)) for i in range(n)]
        yield n, [(tuple(-t for t in r), 0) for r in e] + [(tuple([1] * n), 2)]
        if n in (2, 3) or (n == 4 and not q):
            yield n, [(s, 2) for s in itertools.product((-1, 1), repeat=n)]
            yield n, [(s, 2) for s in itertools.product((-1, 2), repeat=n)] + box(n, -3, 3)
            # the same body far from the origin and rescaled
            yield n, [(s, 2 + 40 * sum(s)) for s in itertools.product((-1, 1), repeat=n)]
            yield n, [(tuple(4 * t for t in s), 1) for s in itertools.product((-1, 1), repeat=n)]


def gen(tier):
    for n, ineqs in bodies(tier):
        r = Poly.build(n, ineqs)
        if r.dim() < n:
            continue
        seeds = (0, 1) if tier == 'quick' else (0, 1, 2, 3)
        for d in ordered_subsets(n, n < 4 or tier != 'quick' and n < 5):
            for s in (seeds if len(d) > 1 else (0,)):
                yield [n, ineqs, d, s, 'float']
        if n == 3:
            for d in ([0], [2, 0], [1, 0, 2]):
                if all(b == int(b) for _, b in ineqs):
                    yield [n, ineqs, d, 5, 'int']
                yield [n, ineqs, d, 6, 'range']


def spanning(vs, ex, dims):
    need(vs is not None, 'the projection onto %r has no vertices', dims)
    fac, _ = hull_facets(ex)
    fac = [(np.array([float(t) for t in h]), sum(float(t) ** 2 for t in h[1:]) ** .5) for h in fac if any(h[1:])]
    ex = [np.array([float(t) for t in v]) for v in ex]
    extra = 0
    for v in vs:
        v = np.asarray(v, dtype=float)
        need(v.shape == (len(dims),), 'vertex of shape %s', v.shape)
        if any(np.max(np.abs(v - w)) <= 1.e-5 * (1. + np.max(np.abs(w))) for w in ex):
            continue
        extra += 1
        dist = [(h[0] + h[1:].dot(v)) / r for h, r in fac]
        need(abs(min(dist)) <= 1.e-6 * (1. + np.abs(v).max()), 'vertices of the projection onto %r: %s is not on the boundary (distance %g)', dims, v.tolist(), min(dist))
    for w in ex:
        need(any(np.max(np.abs(np.asarray(v) - w)) <= 1.e-5 * (1. + np.max(np.abs(w))) for v in vs), 'vertices of the projection onto %r: %s is missing from %s', dims, w.tolist(), [list(v) for v in vs])
    return extra


def check(case, ctx):
    n, ineqs, dims, seed, kind = case
    ctx.state()
    r = Poly.build(n, ineqs)
    p = poly.real(ineqs, [], n, int if kind == 'int' else float)
    A0, b0 = p.A.copy(), p.b.copy()
    np.random.seed(seed)
    res = list(dims)
    q = p.project_to(range(len(dims)) if kind == 'range' and dims == list(range(len(dims))) else res)
    ctx.step()
    need(np.array_equal(p.A, A0) and np.array_equal(p.b, b0) and res == list(dims), 'project_to modified its arguments')
    ex = extreme_points([tuple(v[i] for i in dims) for v in r.vertices()])
    ctx.outcome('%dd -> %dd' % (n, len(dims)))
    need(q.A.shape[1] == len(dims) and q.C.shape[0] == 0, 'projection has A %s, C %s', q.A.shape, q.C.shape)
    poly.describes_hull(q.A, q.b, ex, 1.e-5, 'projection onto %r' % dims)
    # the listed vertices span the projection; a listed point that is not extreme must at least be on the boundary (the
    # solver may hit the middle of a face, and roundoff decides whether the hull code still calls that point extreme)
    sp = spanning(q.vertices, ex, dims)
    if sp:
        ctx.outcome('extra boundary point listed')
    need(not bool(q.empty) and bool(q.bounded), 'projection reported empty or unbounded')
    for v in r.vertices():
        need(bool(q.contains(np.array([float(v[i]) for i in dims]), tol=1.e-5)), 'projection excludes the shadow of vertex %s', v)
    ctx.step(3 + len(r.vertices()))


class Errors(PolyTree):
    """Empty, unbounded and lower-dimensional sets are rejected with a ValueError, for every choice of coordinates."""

    def query(self, case, ineqs, eqs, n, r, ctx):
        if not (r.empty or not r.bounded or eqs):
            ctx.skip('projectable (other layer)')
            return
        why = 'empty' if r.empty else ('unbounded' if not r.bounded else 'equalities')
        ctx.outcome(why)
        p = poly.real(ineqs, eqs, n)
        for d in ([0], list(range(n))[::-1]) if n > 1 else ([0],):
            ctx.step()
            try:
                p.project_to(d)
            except ValueError:
                continue
            need(False, 'projection of a polyhedron (%s) onto %r did not raise a ValueError', why, d)


LAYERS = [Cases('project', gen, check, 'boxes + 0..3 cuts, simplices, cross polytopes in dimension 1..5; every ordered subset of the coordinates (subsets for 4d, 5d); enumerated seeds of the random offset')]
LAYERS += [l for l in trees(lambda name, tree, quick: Errors(name, tree, not name.startswith(('set5', 'thin', 'scale')))) if l.quick]


def gen_shallow(tier):
    """A body whose top facet is a very flat roof (apex or ridge), tilted into one or two further coordinates."""
    for d in (2. ** -8, 2. ** -12, 2. ** -14) if tier == 'quick' else [2. ** -k for k in range(5, 15)]:
        for n0 in (2, 3):
            for up in (1, -1):
                e = lambda i, s: [s * int(i == j) for j in range(n0)]
                rows = [[e(i, s), 1] for i in range(n0 - 1) for s in (1, -1)] + [[e(n0 - 1, -up), 1]]
                for i in range(n0 - 1):
                    for s in (1, -1):
                        a = e(n0 - 1, up)
                        a[i] = s * d
                        rows.append([a, 1 + d])
                for extra in range(3):
                    n = n0 + extra
                    I = [[a + [0] * extra, b] for a, b in rows]
                    for k in range(extra):
                        w = [0] * n
                        w[n0 + k], w[k] = 1, -1
                        I += [[w, 1], [[-t for t in w], 1]]
                    for dims in itertools.permutations(range(n), n0):
                        if n > 3 and tier == 'quick' and dims[0] > dims[-1]:
                            continue
                        yield [n, I, list(dims), 0, 'float']
                    if n0 == 3:
                        for dims in itertools.permutations(range(n), 2):
                            yield [n, I, list(dims), 1, 'float']


LAYERS.append(Cases('shallow', gen_shallow, check, 'flat roofs of height 2**-8 .. 2**-14 over boxes in dimension 2 and 3, with 0..2 further coupled coordinates; all ordered choices of coordinates'))


def gen_polygon(tier):
    for m in (2, 3) if tier == 'quick' else (2, 3, 4):
        for k in (1, 7):
            for dims in ([0, 1], [1, 0]):
                for s in ((2, -1), (0, 0)):
                    yield [m, k, dims, list(s)]


def check_polygon(case, ctx):
    """Oblique prisms over polygons with many edges."""
    from pympc.geometry.polyhedron import Polyhedron
    m, k, dims, s = case
    rows, V = ngon.polygon(m)
    s = [Fraction(t, 8) for t in s]
    # (x, y) = v + z s with v in the polygon and |z| <= 1
    body = [(list(a) + [-(a[0] * s[0] + a[1] * s[1])], b) for a, b in rows] + [([0, 0, 1], 1), ([0, 0, -1], 1)]
    p = ngon.real([body[j] for j in ngon.shuffle(body, k)])
    pts = [tuple((v[i] + z * s[i]) for i in dims) for v in V for z in (1, -1)]
    ctx.state()
    q = p.project_to(dims)
    ctx.step()
    poly.describes_hull(q.A, q.b, sorted(set(pts)))
    for v in q.vertices:
        need(np.all(q.A.dot(v) - q.b < 1e-6), 'vertex %r outside the projection', v.tolist())
    ctx.outcome('%d edges' % len(rows))


LAYERS.append(Cases('polygon', gen_polygon, check_polygon, 'oblique prisms over lattice polygons with 16..32 (thorough 48) edges, both orders of the coordinates', time_limit=120.))
