"""
C10: rewriting the description (normalize, minimal_facets, remove_redundant_inequalities) never changes the set, and the
non-redundant description is minimal.
"""
from fractions import Fraction
import numpy as np
from ..core import Cases, need
from ..ref import Poly
from .. import derived, faces, ngon, space, poly
from .c07 import PolyTree, trees


def independent(eqs, n):
    from ..ref import rank
    return not eqs or (rank([list(c) for c, _ in eqs]) == len(eqs) and len(eqs) < n)


class Rewrite(PolyTree):
    tols = ()

    def normalized(self, case, ineqs, eqs, n, r, ctx):
        p = poly.real(ineqs, eqs, n, self.dtype)

        # normalization: every row scaled to unit norm (zero rows untouched), same halfspaces, nothing lost
        p.normalize()
        ctx.step()
        ctx.outcome('normalized')
        for M, v, src in ((p.A, p.b, ineqs), (p.C, p.d, eqs)):
            need(M.shape == (len(src), n) and v.shape == (len(src),), 'normalize changed the number of constraints: %s, %s', M.shape, v.shape)
            for (a, b) in src:
                s = sum(float(t) ** 2 for t in a) ** .5
                a2, b2 = ([t / s for t in a], b / s) if s > 1e-6 else (list(a), b)
                need(any(np.max(np.abs(M[k] - a2)) < 1e-9 and abs(v[k] - b2) < 1e-9 * (1 + abs(b2)) for k in range(len(src))), 'row %r <= %r lost by normalize: %r %r', a, b, M.tolist(), v.tolist())
            for k in range(len(src)):
                s = np.linalg.norm(M[k])
                need(abs(s - 1.) < 1e-9 or s < 1e-6, 'row %d has norm %g after normalize', k, s)
        return p

    def query(self, case, ineqs, eqs, n, r, ctx):
        p = self.normalized(case, ineqs, eqs, n, r, ctx)

        # redundancy
        if not independent(eqs, n):
            ctx.skip('dependent equalities')
            return
        q = poly.real(ineqs, eqs, n, self.dtype)
        k = poly.mix(case)
        if k % 2:
            poly.warm(q, eqs, n, k // 2)
        mf = q.minimal_facets()
        ctx.step()
        if r.empty:
            ctx.outcome('empty')
            need(mf is None, 'minimal_facets of an empty polyhedron is %r', mf)
            try:
                q.remove_redundant_inequalities()
            except ValueError:
                return
            need(False, 'remove_redundant_inequalities on an empty polyhedron did not raise')
        need(mf is not None, 'minimal_facets is None for a nonempty polyhedron')
        mf = [int(i) for i in mf]
        need(mf == sorted(set(mf)) and all(0 <= i < len(ineqs) for i in mf), 'minimal_facets %r', mf)
        ctx.outcome('%d of %d' % (len(mf), len(ineqs)))
        kept = [ineqs[i] for i in mf]
        k = Poly.build(n, kept, eqs)
        need(poly.included(k, ineqs, eqs), 'minimal_facets %r lost a facet: the remaining set is larger', mf)
        if not r.flat(len(eqs)):
            # (in a set without relative interior removing rows one at a time is order dependent but still minimal)
            pass
        for j in range(len(mf)):
            rest = Poly.build(n, kept[:j] + kept[j + 1:], eqs)
            need(not poly.included(rest, [kept[j]], []), 'facet %d of minimal_facets %r is redundant', mf[j], mf)
        # another tolerance: nothing that sticks out by more is dropped, nothing that never sticks out is kept
        if self.tols and not r.flat(len(eqs)):
            for tol in self.tols:
                m2 = [int(i) for i in poly.real(ineqs, eqs, n, self.dtype).minimal_facets(tol)]
                ctx.step()
                need(m2 == mf, 'minimal_facets(%g) is %r, minimal_facets() is %r', tol, m2, mf)
        q.remove_redundant_inequalities()
        ctx.step()
        poly.same_set(q, ineqs, eqs, r, what='polyhedron after remove_redundant_inequalities')
        need(q.A.shape[0] == len(mf), '%d inequalities after removal, %d minimal facets', q.A.shape[0], len(mf))
        # idempotence, and the same on a normalized description
        q.remove_redundant_inequalities()
        need(q.A.shape[0] == len(mf), 'second removal changed the number of inequalities')
        p.remove_redundant_inequalities()
        ctx.step(2)
        poly_slack(p, ineqs, eqs, r)


def poly_slack(p, ineqs, eqs, r):
    """Normalized rows carry roundoff: compare by the rows they come from."""
    n = p.A.shape[1]
    src = []
    for k in range(p.A.shape[0]):
        m = None
        for a, b in ineqs:
            s = sum(float(t) ** 2 for t in a) ** .5
            a2, b2 = ([t / s for t in a], b / s) if s > 1e-6 else (list(a), b)
            if np.max(np.abs(p.A[k] - a2)) < 1e-9 and abs(p.b[k] - b2) < 1e-9 * (1 + abs(b2)):
                m = (a, b)
                break
        need(m is not None, 'row %r of the reduced normalized polyhedron is not one of the original ones', p.A[k].tolist())
        src.append(m)
    q = Poly.build(n, src, eqs)
    need(poly.included(q, ineqs, eqs), 'normalize + remove_redundant_inequalities enlarged the set to %r', src)


def keep(name):
    return not name.startswith(('set5-2d', 'set5-3d'))


def tiny(make):
    """Rows of small norm with right-hand sides far below it (and the other way round)."""
    out = []
    for n, dirs in ((1, [(1,), (-1,)]), (2, [(1, 0), (-1, 0), (0, 1), (0, -1), (3, 4), (-1, -1)])):
        for sc in (2. ** -12, 2. ** -16, 2. ** 12):
            lets = [(tuple(sc * t for t in a), sc * b) for a in dirs for b in (1., 2. ** -12, -2. ** -10, 2. ** 8)]
            out.append(make('tiny%g-%dd' % (sc, n), space.Tree(n, lets, 2, ordered=False), True))
            lets = [(a, 1.) for a in dirs]
            eqs = [((tuple(sc * t for t in a), sc * b),) for a in dirs for b in (.5, 2. ** -12)]
            out.append(make('tinyeq%g-%dd' % (sc, n), space.Tree(n, lets, 1, eqs=eqs), True))
    return out


class Tolerance(Rewrite):
    """Rows with small integers: a facet that matters sticks out by much more than these tolerances."""
    tols = (1.e-9, 1.e-4, 1.e-2)


class Normalize(Rewrite):
    """Normalization only."""

    def query(self, case, ineqs, eqs, n, r, ctx):
        self.normalized(case, ineqs, eqs, n, r, ctx)


LAYERS = trees(lambda name, tree, quick: Rewrite(name, tree, keep(name))) + tiny(lambda name, tree, quick: Normalize(name, tree, quick))


def check_face(case, ctx):
    p, ineqs, eqs, r = faces.build(case)
    if not faces.relevant(case, r):
        ctx.skip('not a face of this dimension')
        return
    ctx.state()
    n = case[0]
    mf = p.minimal_facets()
    ctx.step()
    need(mf is not None, 'minimal_facets is None for a nonempty polyhedron')
    kept = [ineqs[int(i)] for i in mf]
    ctx.outcome('%d of %d' % (len(mf), len(ineqs)))
    need(poly.included(Poly.build(n, kept, eqs), ineqs, eqs), 'minimal_facets %r lost a facet: the remaining set is larger', mf)
    for j in range(len(kept)):
        need(not poly.included(Poly.build(n, kept[:j] + kept[j + 1:], eqs), [kept[j]], []), 'facet %d of minimal_facets %r is redundant', mf[j], mf)
    A, b = p.A.copy(), p.b.copy()
    p.remove_redundant_inequalities()
    ctx.step()
    need(p.A.shape[0] == len(mf), '%d inequalities after removal, %d minimal facets', p.A.shape[0], len(mf))
    kept = [ineqs[k] for k in range(len(b)) if any(np.array_equal(A[k], a) and b[k] == t for a, t in zip(p.A, p.b))]
    need(poly.included(Poly.build(n, kept, eqs), ineqs, eqs), 'remove_redundant_inequalities enlarged the set')


LAYERS.append(Cases('faces', faces.gen, check_face, faces.BOUNDS))


def near_parallel(make):
    """Facets whose directions differ very little, in boxes large enough for both to matter."""
    out = []
    for e in (2. ** -5, 2. ** -8, 2. ** -11):
        L = 2. / e
        dirs = [((0., 1.), 1.), ((e, 1.), 1.5), ((-e, 1.), 1.5), ((2 * e, 1.), 2.25), ((0., -1.), 1.), ((e, -1.), 2.), ((0., 1.), 4.)]
        base = [((1., 0.), L), ((-1., 0.), L)]
        out.append(make('nearparallel%g' % e, space.Tree(2, dirs, 3, ordered=False, base=base), True))
        dirs = [((0., 0., 1.), 1.), ((e, 0., 1.), 1.5), ((0., -e, 1.), 1.5), ((e, e, 1.), 2.), ((0., 0., -1.), 1.)]
        out.append(make('nearparallel3-%g' % e, space.Tree(3, dirs, 3, ordered=False, base=[((1., 0., 0.), L), ((-1., 0., 0.), L), ((0., 1., 0.), L), ((0., -1., 0.), L)]), True))
    return out


LAYERS += near_parallel(lambda name, tree, quick: Rewrite(name, tree, quick))
LAYERS.append(Tolerance('tol-1d', space.Tree(1, space.letters(1, (1, -1, 2), zero=False), 3, ordered=False), True))
LAYERS.append(Tolerance('tol-2d', space.Tree(2, space.letters(2, (1, -1), zero=False), 3, ordered=False), True))


def check_derived(case, ctx):
    """Sets made by the operations of the library: rewriting them changes nothing."""
    ctx.state()
    p = derived.build(case)
    ineqs, eqs = poly.rows_of(p)
    r = Poly.build(p.A.shape[1], ineqs, eqs)
    mf = p.minimal_facets()
    ctx.step()
    need(mf is not None and set(int(i) for i in mf) <= set(range(len(ineqs))), 'minimal facets %r of %d inequalities', mf, len(ineqs))
    p.remove_redundant_inequalities()
    need(p.A.shape[0] == len(mf), '%d inequalities left, %d minimal facets', p.A.shape[0], len(mf))
    poly.same_set(p, ineqs, eqs, r, slack=1e-6, what='set after remove_redundant_inequalities')
    p.normalize()
    poly.same_set(p, ineqs, eqs, r, slack=1e-6, what='set after normalize')
    ctx.step(2)
    ctx.outcome('%d of %d' % (min(len(mf), 6), min(len(ineqs), 9)))


LAYERS.append(Cases('derived', derived.gen, check_derived, derived.BOUNDS))


def check_polygon(case, ctx):
    """Many edges, with a redundant row (parallel or through a vertex) next to every second one."""
    m, k = case
    rows, V = ngon.polygon(m)
    all_rows = []
    for i, (a, b) in enumerate(rows):
        all_rows.append((a, b, True))
        if i % 2:
            c, d = rows[(i + 1) % len(rows)]
            all_rows.append((a, b + Fraction(1, 16), False) if i % 4 == 1 else ((a[0] + c[0], a[1] + c[1]), b + d, False))
    all_rows = [all_rows[j] for j in ngon.shuffle(all_rows, k)]
    ctx.state()
    p = ngon.real([(a, b) for a, b, _ in all_rows])
    want = [i for i, r in enumerate(all_rows) if r[2]]
    mf = [int(i) for i in p.minimal_facets()]
    ctx.step()
    need(sorted(mf) == want, 'minimal facets of a polygon with %d edges among %d rows: missing %r, too many %r', len(rows), len(all_rows), sorted(set(want) - set(mf)), sorted(set(mf) - set(want)))
    p.remove_redundant_inequalities()
    ctx.step()
    A, b = ngon.arrays([r[:2] for r in all_rows if r[2]])
    need(p.A.shape == A.shape and np.abs(p.A - A).max() < 1e-9 and np.abs(p.b - b).max() < 1e-9, 'rows changed by remove_redundant_inequalities')
    p.normalize()
    w = np.linalg.norm(A, axis=1)
    need(np.abs(p.A - A / w[:, None]).max() < 1e-9 and np.abs(p.b - b / w).max() < 1e-9, 'rows not normalized')
    ctx.outcome('%d edges' % len(rows))


LAYERS.append(Cases('polygon', ngon.gen, check_polygon, ngon.BOUNDS))


# -- the tolerance ------------------------------------------------------------------------------------------------------------

def gen_tol(tier):
    for n in (2, 3):
        for tol in (2. ** -20, 2. ** -13, 2. ** -7, 2. ** -4):
            for f in (4., .25, -1.):
                for at in range(2 * n + 1):
                    for corner in range(2 ** n):
                        yield [n, tol, f, at, corner]


def check_tol(case, ctx):
    """A box, and a row that cuts one of its corners by a multiple of the tolerance asked for."""
    n, tol, f, at, corner = case
    s = [1 if corner >> i & 1 else -1 for i in range(n)]
    rows = [(tuple(v * int(i == j) for i in range(n)), 1) for j in range(n) for v in (1, -1)]
    rows.insert(at, (tuple(s), n - f * tol))
    ctx.state()
    mf = [int(i) for i in poly.real(rows, [], n).minimal_facets(tol)]
    ctx.step()
    want = [i for i in range(2 * n + 1) if i != at or f > 1]
    ctx.outcome('kept' if f > 1 else 'dropped')
    need(mf == want, 'corner cut by %g: minimal_facets(%g) is %r, expected %r', f * tol, tol, mf, want)


LAYERS.append(Cases('tolerance', gen_tol, check_tol, 'dimension 2..3: a box with one corner (each of them) cut by a quarter of the tolerance and by four tolerances, tolerances 2^-20..2^-4 given explicitly, the row at every position'))
