"""
C06: answers never depend on what was asked before.

Transition system over one Polyhedron object: the abstract state is the list of constraints it currently describes plus
what has been asked so far; transitions are every public query and every public operation that changes the description
(or copies the object).  All histories up to the bound are replayed on a real object and, after each history, every query
is judged against the exact reference for the current description -- whatever the object remembers.
"""
import copy
import itertools
import numpy as np
from ..core import Layer, Violation, need
from ..ref import Poly, rank
from .. import poly
from .c10 import independent
from .c01 import box

QUERIES = ['empty', 'bounded', 'radius', 'center', 'vertices', 'minimal_facets', 'contains', 'is_included_in', 'project_to', 'intersection']


def rows_like(n, t):
    r = [0] * n
    r[t % n] = 1
    return r


def mutators(n):
    """[name, semantic inequalities, semantic equalities] (JSON)."""
    e = lambda i, s=1: [s if k == i else 0 for k in range(n)]
    out = [
        ['ineq-cut', [[[1] * n, 0]], []],                                                  # cuts the bounded bodies
        ['ineq-infeasible', [[e(0), -5]], [], ],                                           # makes them empty
        ['ineq-redundant', [[e(0), 50]], []],
        ['lower', [[e(i, -1), 3] for i in range(n)], []],                                  # bounds the unbounded ones
        ['bounds', [[e(i, -1), 4] for i in range(n)] + [[e(i), 2] for i in range(n)], []],
        ['upper-last', [[e(n - 1), .5]], []],
        ['normalize', [], []],
        ['remove_redundant', [], []],
        ['copy', [], []],
        ['copy-keep', [], []],
        ['symbolic', [[[2] + [0] * (n - 1), 1]], []],
    ]
    if n > 1:
        out.append(['equality', [], [[[1] + [0] * (n - 2) + [1], 0]]])
        out.append(['eq-index', [], [[e(n - 1), 0]]])
    return out


def starts(n):
    e = lambda i, s=1: [s if k == i else 0 for k in range(n)]
    b = [[list(a), t] for a, t in box(n, -1, 1)]
    out = [
        ['box', b, []],
        ['orthant', [[e(i, -1), 0] for i in range(n)], []],
        ['strip', [[e(0), 1], [e(0, -1), 1]], []],
        ['empty', [[e(0), -2], [e(0, -1), 1]], []],
        ['simplex', [[e(i, -1), 0] for i in range(n)] + [[[1] * n, 2]], []],
        ['whole', [], []],
    ]
    if n > 1:
        out.append(['box-eq', b, [[[1] * n, 1]]])
        out.append(['strip-eq', [[e(1), 1], [e(1, -1), 1]], [[e(0), 0]]])
    return out


def apply(p, m, n):
    k = m[0]
    ar = lambda v: np.array(v, dtype=float)
    if k in ('ineq-cut', 'ineq-infeasible', 'ineq-redundant'):
        p.add_inequality(ar([a for a, _ in m[1]]), ar([b for _, b in m[1]]))
    elif k == 'lower':
        p.add_lower_bound(ar([-3.] * n))
    elif k == 'bounds':
        p.add_bounds(ar([-4.] * n), ar([2.] * n))
    elif k == 'upper-last':
        p.add_upper_bound(ar([.5]), [n - 1])
    elif k == 'normalize':
        p.normalize()
    elif k == 'copy':
        p = copy.copy(p)
    elif k == 'symbolic':
        import sympy as sp
        x = sp.Matrix(sp.symbols('x0:%d' % n))
        p.add_symbolic_inequality(x, sp.Matrix([2 * x[0] - 1]))
    elif k == 'equality':
        p.add_equality(ar([a for a, _ in m[2]]), ar([b for _, b in m[2]]))
    elif k == 'eq-index':
        p.add_equality(ar([[1.]]), ar([0.]), [n - 1])
    return p


def ask(p, q, n, ok):
    """A query whose answer is ignored (it may only influence what the object remembers).  ok: equalities independent."""
    if q == 'contains':
        p.contains(np.zeros(n))
    elif q == 'is_included_in':
        p.is_included_in(copy.copy(p))
    elif q == 'intersection':
        p.intersection(p)
    elif q == 'minimal_facets':
        if ok:
            p.minimal_facets()
    elif q == 'project_to':
        np.random.seed(0)
        try:
            p.project_to([0])
        except ValueError:
            pass
    elif ok or q in ('empty', 'bounded'):
        getattr(p, q)


class Mute(object):
    def __init__(self, ctx):
        self.step, self.skip = ctx.step, lambda t: None

    def outcome(self, t):
        pass


def judge(p, ineqs, eqs, n, r, order, ctx):
    ok = independent(eqs, n)
    m = Mute(ctx)
    for q in order:
        if q == 'empty':
            need(bool(p.empty) == r.empty, 'empty is %r, exact %r', p.empty, r.empty)
        elif q == 'bounded':
            need(bool(p.bounded) == r.bounded, 'bounded is %r, exact %r', p.bounded, r.bounded)
        elif q == 'radius' and ok:
            poly.judge_chebyshev(p, ineqs, eqs, n, m, order=('radius',))
        elif q == 'center' and ok:
            poly.judge_chebyshev(p, ineqs, eqs, n, m, order=('center',))
        elif q == 'vertices':
            poly.judge_vertices(p, ineqs, eqs, n, r, m)
        elif q == 'contains':
            for x in itertools.product((-4., -1., 0., .5, 1.), repeat=n):
                inside = all(sum(s * t for s, t in zip(a, x)) <= b + 1e-9 for a, b in ineqs) and all(abs(sum(s * t for s, t in zip(a, x)) - b) <= 1e-9 for a, b in eqs)
                need(bool(p.contains(np.array(x))) == inside, 'contains(%r) is not %r', x, inside)
        elif q == 'minimal_facets' and ok:
            mf = p.minimal_facets()
            if r.empty:
                need(mf is None, 'minimal facets %r of an empty set', mf)
            else:
                need(mf is not None, 'minimal_facets is None for a nonempty set')
                A, b = p.A, p.b
                k = Poly.build(n, [(A[i].tolist(), b[i]) for i in mf], eqs)
                need(poly.included(k, ineqs, eqs, 1e-9), 'minimal facets %r lose part of the description', list(mf))
        elif q == 'is_included_in':
            from pympc.geometry.polyhedron import Polyhedron
            big = Polyhedron.from_bounds(np.array([-6.] * n), np.array([6.] * n))
            inc = poly.included(r, box(n, -6, 6), [])
            need(bool(p.is_included_in(big)) == inc, 'inclusion in the big box is not %r', inc)
        elif q == 'project_to':
            np.random.seed(0)
            if not eqs and r.bounded and not r.empty and r.dim() == n:
                pr = p.project_to([0])
                vs = [v[0] for v in r.vertices()]
                poly.same_points(pr.vertices, [(min(vs),), (max(vs),)], 1e-6, 'projection onto the first coordinate')
        elif q == 'intersection':
            s = p.intersection(p)
            need(bool(s.empty) == r.empty and bool(s.bounded) == r.bounded, 'self intersection: empty %r bounded %r, exact %r %r', s.empty, s.bounded, r.empty, r.bounded)
            if ok and not eqs:
                poly.judge_vertices(s, ineqs, eqs, n, r, m)
        ctx.step()


class Histories(Layer):
    def __init__(self, n, dq, dt):
        self.n, self.dq, self.dt = n, dq, dt
        self.name = 'histories-%dd' % n
        self.deep = (0, 1, 4, 6)
        self.S, self.M = starts(n), mutators(n)
        self.ops = [['?', q] for q in QUERIES] + [['!', m[0]] for m in self.M]
        self.byname = dict((m[0], m) for m in self.M)
        self.bounds = 'dimension %d: %d initial polyhedra x all histories of up to %d (thorough %d) of %d operations (%d queries, %d changes/copies; histories of 3 and more end with a change and contain a query, depth 4 for four initial polyhedra), then all queries judged, in two orders up to length 2' % (
            n, len(self.S), dq, dt, len(self.ops), len(QUERIES), len(self.M))

    def shards(self, tier):
        return [[tier, s, k] for s in range(len(self.S)) for k in range(-1, len(self.ops))]

    def explore(self, shard, ctx):
        tier, s, k = shard
        d = self.dq if tier == 'quick' else self.dt
        if k < 0:
            ctx.state()
            ctx.case(self, [s, []])
            return
        for l in range(d):
            for rest in itertools.product(range(len(self.ops)), repeat=l):
                h = [k] + list(rest)
                # long histories: end with a change (the judged queries follow), with something asked before it
                if l >= 2 and (self.ops[h[-1]][0] == '?' or all(self.ops[j][0] == '!' for j in h)):
                    continue
                if l >= 3 and s not in self.deep:
                    continue
                ctx.state()
                ctx.case(self, [s, h])
                if len(ctx.violations) >= 5:
                    return

    def check(self, case, ctx):
        s, hist = case
        n = self.n
        _, i0, e0 = self.S[s]
        ineqs, eqs = [(tuple(a), b) for a, b in i0], [(tuple(a), b) for a, b in e0]
        r = Poly.build(n, ineqs, eqs)
        p = poly.real(ineqs, eqs, n)
        older = []
        removed = False
        for k in hist:
            kind, name = self.ops[k]
            if kind == '?':
                ask(p, name, n, independent(eqs, n))
            elif name == 'remove_redundant':
                if independent(eqs, n) and not r.empty:
                    p.remove_redundant_inequalities()
                    removed = True
                    # the description is now a subset of the rows: same set
            else:
                m = self.byname[name]
                if name == 'copy':
                    older.append((p, list(ineqs), list(eqs), removed))
                elif name == 'copy-keep':
                    # the copy is put aside and the edits go on with the original
                    older.append((copy.copy(p), list(ineqs), list(eqs), removed))
                p = apply(p, m, n)
                ineqs = ineqs + [(tuple(a), b) for a, b in m[1]]
                eqs = eqs + [(tuple(a), b) for a, b in m[2]]
                if m[1] or m[2]:
                    r = Poly.build(n, ineqs, eqs)
            ctx.step()
        ctx.outcome('empty' if r.empty else ('bounded' if r.bounded else 'unbounded'))
        q = copy.copy(p)
        # the removal of redundant rows keeps the set but not the rows: the radius of flat/empty sets depends on rows
        order = list(QUERIES)
        if removed:
            ii, ee = poly.rows_of(p)
            poly.same_set(p, ineqs, eqs, r, 1e-9)
            judge(p, ii, ee, n, r, order, ctx)
            if len(hist) < 3:
                judge(q, ii, ee, n, r, order[::-1], ctx)
        else:
            judge(p, ineqs, eqs, n, r, order if len(hist) < 3 or sum(hist) % 2 else order[::-1], ctx)
            if len(hist) < 3:
                judge(q, ineqs, eqs, n, r, order[::-1], ctx)
        for o, ii, ee, rem in older:
            ro = Poly.build(n, ii, ee)
            try:
                if rem:
                    poly.same_set(o, ii, ee, ro, 1e-9)
                    ii, ee = poly.rows_of(o)
                judge(o, ii, ee, n, ro, order if sum(hist) % 2 else order[::-1], ctx)
            except Violation as e:
                raise Violation('a polyhedron and its copy answer for each other: %s' % e)


class Neighbours(Layer):
    """Two different polyhedra, asked one after the other (also with the first one discarded in between)."""

    def __init__(self, n):
        self.n, self.name = n, 'neighbours-%dd' % n
        self.P = lookalikes(n)
        self.bounds = 'dimension %d: all ordered pairs of %d look-alike polyhedra (relabelled, mirrored, rows reordered, one field changed); all queries on the first, then on the second, then on the first again' % (n, len(self.P))

    def shards(self, tier):
        return list(range(len(self.P)))

    def explore(self, i, ctx):
        for j in range(len(self.P)):
            ctx.state()
            for keep in (0, 1):
                ctx.case(self, [i, j, keep])
            if len(ctx.violations) >= 5:
                return

    def check(self, case, ctx):
        i, j, keep = case
        n = self.n
        p = poly.real(self.P[i][0], self.P[i][1], n)
        order = QUERIES if (i + j) % 2 else QUERIES[::-1]
        self.one(p, i, order, ctx)
        if not keep:
            del p
        q = poly.real(self.P[j][0], self.P[j][1], n)
        self.one(q, j, order, ctx)
        if keep:
            self.one(p, i, order, ctx)

    def one(self, p, i, order, ctx):
        ineqs, eqs = self.P[i]
        r = Poly.build(self.n, ineqs, eqs)
        ctx.outcome('empty' if r.empty else ('bounded' if r.bounded else 'unbounded'))
        judge(p, ineqs, eqs, self.n, r, order, ctx)


def lookalikes(n):
    e = lambda i, s=1: tuple(s if k == i else 0 for k in range(n))
    bases = [(box(n, -1, 2) + [(tuple(range(1, n + 1)), 2)], []), ([(e(i, -1), 0) for i in range(n)] + [(tuple([1] * n), 1)], []), ([(e(0), 1), (e(0, -1), 1), (e(n - 1), 2)], [])]
    if n > 1:
        bases.append((box(n, -1, 2), [(tuple([1] + [0] * (n - 2) + [2]), 1)]))
    out = []
    perms = list(itertools.permutations(range(n)))
    for I, E in bases:
        for perm in (perms[0], perms[-1]):
            for sign in ([1] * n, [-1] * n, [1] * (n - 1) + [-1]):
                v = lambda a: tuple(sign[k] * a[perm[k]] for k in range(n))
                out.append(([(v(a), b) for a, b in I], [(v(a), b) for a, b in E]))
        out.append((I[::-1], E))
        out.append((I, [(a, -b) for a, b in E]))
        out.append(([(a, I[len(I) - 1 - k][1]) for k, (a, _) in enumerate(I)], E))
        out.append(([(a, b - 1) for a, b in I], E))
        out.append(([(a, b + .5) for a, b in I], E))
        out.append(([(tuple(2 * t for t in a), b) for a, b in I], E))
    res = []
    for p in out:
        if p not in res:
            res.append(p)
    return res


class Fine(Layer):
    """Changes that are small but well above every tolerance: query - small change - all queries."""

    def __init__(self, n, eps):
        self.n, self.eps, self.name = n, eps, 'fine%g-%dd' % (eps, n)
        e = lambda i, s=1: tuple(s if k == i else 0 for k in range(n))
        self.S = [(box(n, -1, 1), []), ([(e(i, -1), 0) for i in range(n)] + [(tuple([1] * n), 2)], [])]
        if n > 1:
            self.S.append((box(n, -1, 1), [(tuple([1] * n), .5)]))
        self.M = []
        for S, (I, E) in enumerate(self.S):
            r = Poly.build(n, I, E)
            for a in [e(0), e(n - 1, -1), tuple([1] * n), tuple([1] + [-1] * (n - 1)), tuple([-2] + [1] * (n - 1))]:
                top = max(sum(x * y for x, y in zip(a, v)) for v in r.vertices())
                low = min(sum(x * y for x, y in zip(a, v)) for v in r.vertices())
                if top > low:
                    self.M.append((S, [(a, float(top) - eps)], []))
        self.bounds = 'dimension %d: box, simplex and box with an equality, each query (and all of them) asked, then one of %d cuts that remove a corner, edge or facet by %g, then all queries' % (n, len(self.M), eps)

    def shards(self, tier):
        return list(range(len(self.M)))

    def explore(self, m, ctx):
        for q in range(-1, len(QUERIES)):
            for way in (0, 1, 2):
                ctx.state()
                ctx.case(self, [m, q, way])

    def check(self, case, ctx):
        m, q, way = case
        n = self.n
        s, cut, _ = self.M[m]
        ineqs, eqs = self.S[s]
        p = poly.real(ineqs, eqs, n)
        for k, name in enumerate(QUERIES):
            if q in (-1, k):
                ask(p, name, n, True)
        a, b = np.array([cut[0][0]], dtype=float), np.array([cut[0][1]])
        if way == 0:
            p.add_inequality(a, b)
        elif way == 1:
            import sympy as sp
            x = sp.Matrix(sp.symbols('x0:%d' % n))
            p.add_symbolic_inequality(x, sp.Matrix([sum((sp.Rational(*float(v).as_integer_ratio()) * t for v, t in zip(cut[0][0], x)), sp.Integer(0)) - sp.Rational(*float(cut[0][1]).as_integer_ratio())]))
        else:
            i = [k for k, v in enumerate(cut[0][0]) if v]
            p.add_inequality(a[:, i], b, i)
        ii = list(ineqs) + list(cut)
        r = Poly.build(n, ii, eqs)
        ctx.outcome('bounded')
        order = [t for t in QUERIES if t != 'contains']
        judge(p, ii, eqs, n, r, order if (m + q) % 2 else order[::-1], ctx)
        c = np.array([[float(t) for t in v] for v in r.vertices()])
        for v in Poly.build(n, ineqs, eqs).vertices():
            x = np.array([float(t) for t in v])
            need(bool(p.contains(x)) == bool(a[0].dot(x) <= b[0] + 1e-9), 'contains(%r) is wrong after the cut', x.tolist())
        need(all(p.contains(v, 1e-6) for v in c), 'a vertex of the new set is not contained')
        ctx.step()


LAYERS = [Histories(2, 3, 4), Histories(1, 3, 3), Histories(3, 2, 3), Neighbours(1), Neighbours(2), Neighbours(3), Fine(1, 2. ** -10), Fine(2, 2. ** -10), Fine(3, 2. ** -10), Fine(2, 2. ** -4)]
