"""C01: verdict and optimum of linear programs (both solvers)."""
import itertools
import numpy as np
from scipy.optimize import linprog
from ..core import Cases, Layer, need
from ..ref import dot
from ..ref import Poly
from .. import large, pairs, space

TOL = 1.e-6


def arr(lst, n, dtype=float):
    return np.array([list(a) for a, _ in lst], dtype=dtype).reshape(len(lst), n), np.array([b for _, b in lst], dtype=dtype)


def check_lp(sol, f, ineqs, eqs, verdict, value, tol):
    keys = ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality')
    need(set(keys) <= set(sol), 'missing keys in %r', sorted(sol))
    if verdict != 'optimal':
        bad = [k for k in keys if sol[k] is not None]
        need(not bad, 'LP is %s but %s is not None: %r', verdict, bad, sol)
        return
    need(sol['min'] is not None and sol['argmin'] is not None, 'LP has optimum %s but the solver found none', value)
    x = np.asarray(sol['argmin'], dtype=float)
    need(x.shape == (len(f),), 'argmin has shape %s', x.shape)
    v = float(value)
    need(abs(float(sol['min']) - v) <= tol * (1. + abs(v)), 'min %r, exact optimum %s', sol['min'], value)
    need(abs(dot(f, x) - v) <= tol * (1. + abs(v)), 'cost of argmin %r is %r, exact optimum %s', x, dot(f, x), value)
    for a, b in ineqs:
        need(dot(a, x) - b <= tol * (1. + abs(b)), 'argmin %r violates %r x <= %r', x, a, b)
    for c, d in eqs:
        need(abs(dot(c, x) - d) <= tol * (1. + abs(d)), 'argmin %r violates %r x == %r', x, c, d)


class LPTree(Layer):
    def __init__(self, name, tree, costs, solver, quick=True, dtype=float, empty_eq=False):
        self.name, self.tree, self.costs, self.solver = name, tree, costs, solver
        self.quick, self.dtype, self.empty_eq = quick, dtype, empty_eq
        self.bounds = '%s; %d costs; solver %s' % (tree.describe(), len(costs), solver)

    def shards(self, tier):
        if tier == 'quick' and not self.quick:
            return []
        return self.tree.shards()

    def explore(self, shard, ctx):
        for ineqs, eqs, p in self.tree.walk(shard):
            ctx.state()
            ctx.step()      # the edge that appended the last constraint
            self._p = p
            for f in self.costs:
                if not ctx.case(self, [ineqs, eqs, f]) and len(ctx.violations) >= 5:
                    return
            self._p = None

    _p = None

    def check(self, case, ctx):
        from pympc.optimization.programs import linear_program
        ineqs, eqs, f = case
        n = self.tree.n
        p = self._p if self._p is not None else Poly.build(n, ineqs, eqs)
        verdict, value = p.minimize(f)
        A, b = arr(ineqs, n, self.dtype)
        F = np.array(f, dtype=self.dtype)
        if eqs or self.empty_eq:
            C, d = arr(eqs, n, self.dtype)
            sol = linear_program(F, A, b, C, d, solver=self.solver)
        else:
            sol = linear_program(F, A, b, solver=self.solver)
        ctx.step()
        ctx.outcome(verdict)
        check_lp(sol, f, ineqs, eqs, verdict, value, TOL if self.solver == 'pnnls' else 1.e-5)


def box(n, lo=-1, hi=1):
    out = []
    for i in range(n):
        e = tuple(int(i == j) for j in range(n))
        out += [(e, hi), (tuple(-x for x in e), -lo)]
    return out


def layers(make):
    """The constraint/cost spaces shared by the LP checks; make(name, tree, costs, solver, quick)."""
    T = space.Tree
    f2 = space.rows(2) + [(2, 1), (-1, 3)]
    out = []
    for s in ('pnnls', 'gurobi'):
        out.append(make('seq-2d-' + s, T(2, space.letters(2, (0, 2, -1)), 2 if s == 'gurobi' else 3), f2, s, True))
        out.append(make('set-2d-' + s, T(2, space.letters(2, (1, -1), zero=False), 4, ordered=False, min_depth=3), space.rows(2, zero=False), s, s == 'pnnls'))
        out.append(make('eq-2d-' + s, T(2, space.letters(2, (1, -1), zero=False), 2, eqs=space.eq_lists(2, maxlen=2)[1:]), space.rows(2), s, s == 'pnnls'))
        out.append(make('eq1-2d-' + s, T(2, space.letters(2, (0, 1), zero=False), 2, eqs=space.eq_lists(2, maxlen=1)[1:]), f2, s, True))
        out.append(make('set-3d-' + s, T(3, space.letters(3, (1, 0), only=[(1,0,0),(-1,0,0),(0,1,0),(0,-1,0),(0,0,1),(0,0,-1),(1,1,1),(-1,-1,-1),(1,-1,0),(0,1,-2)]), 4, ordered=False, min_depth=3),
                        [(1,0,0),(0,-1,0),(0,0,1),(1,1,1),(-1,2,0),(0,0,0),(1,-1,-1)], s, s == 'pnnls'))
        out.append(make('eq-3d-' + s, T(3, space.letters(3, (1,), only=[(1,0,0),(-1,0,0),(0,1,0),(0,-1,0),(0,0,1),(0,0,-1)]), 3, ordered=False, min_depth=2,
                                    eqs=space.eq_lists(3, maxlen=2, lets=[((1,1,1),0),((1,-1,0),0),((0,1,2),1),((1,0,0),-1),((2,2,2),1)])[1:]),
                        [(1,0,0),(0,-1,0),(1,1,1),(-1,2,0),(0,0,0),(1,-1,-1)], s, True))
        out.append(make('1d-' + s, T(1, space.letters(1, (0, 1, -1, 3), vals=(-2, -1, 0, 1, 3)), 3 if s == 'pnnls' else 2, eqs=[(), (((1,), 1),), (((2,), -1),), (((0,), 0),), (((0,), 1),), (((1,), 1), ((2,), 2))]),
                        [(1,), (-1,), (0,), (3,)], s, True))
        for n in (1, 2, 3):
            e1 = tuple([1] * n)
            out.append(make('none-%dd-%s' % (n, s), T(n, [], 0, eqs=[(), ((e1, 1),), ((e1, 1), (tuple([2] * n), 2)), ((e1, 1), (e1, 0)), ((tuple([0] * n), 0),)]), [tuple([0] * n), e1, tuple([-2] + [0] * (n - 1))], s, True))
        for n in (4, 5, 6):
            cuts = [(tuple([1] * n), 1), (tuple([-1] * n), 0), (tuple([1, -1] + [0] * (n - 2)), 0), (tuple(range(n)), 2), (tuple([0] * (n - 1) + [1]), 0), (tuple([-2] + [0] * (n - 2) + [1]), -1), (tuple([0] * n), 1)]
            eqs = [(), ((tuple([1] * n), 0),), ((tuple([1] * (n - 1) + [-1]), 1), (tuple([0, 1, 1] + [0] * (n - 3)), 0)),
                   ((tuple([1, 1] + [0] * (n - 2)), 0), (tuple([0, 0, 1] + [0] * (n - 3)), 1), (tuple([0, 0, 0, 2] + [0] * (n - 4)), -1))]
            fs = [tuple([1] * n), tuple([-1] * n), tuple([0] * (n - 1) + [1]), tuple((-1) ** i * (i + 1) for i in range(n)), tuple([0, -1] + [0] * (n - 2))]
            out.append(make('box-%dd-%s' % (n, s), T(n, cuts, 3, eqs=eqs, ordered=False, base=box(n, -1, 2)), fs, s, True))
            # same without one side of the box: unbounded directions
            out.append(make('halfbox-%dd-%s' % (n, s), T(n, cuts, 2, eqs=eqs[:3], ordered=False, base=box(n, -1, 2)[:-1]), fs, s, True))
    # thin margins and scaled data: gaps far above the solver tolerance and far below everyday data
    g = 2. ** -12
    for s in ('pnnls', 'gurobi'):
        small = (g, -g, 2. ** -16, -2. ** -16) if s == 'pnnls' else (g, -g)
        out.append(make('thin-1d-' + s, T(1, space.letters(1, (0., 1., 1. + g, -1., -1. - g) + small, vals=(-1, 1)), 3, ordered=False, min_depth=2), [(1.,), (-1.,), (g,), (0.,)], s, True))
        out.append(make('thin-2d-' + s, T(2, space.letters(2, (0., 1., -1. - g, -g, g), only=[(1, 0), (-1, 0), (0, 1), (0, -1), (-1, -1), (1, 1)]), 4 if s == 'pnnls' else 3, ordered=False, min_depth=3),
                        [(1., 0.), (0., -1.), (g, -1.), (1., 1. + g), (0., 0.)], s, True))
        for k in (-8, -4, 5, 10, 14):
            m = 2. ** k
            out.append(make('scale%d-2d-%s' % (k, s), T(2, space.letters(2, (m, -m), only=[(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 2)]), 4, ordered=False, min_depth=3, eqs=[(), (((1, 1), m),)]),
                            [(1., 0.), (0., -1.), (1., 1.), (-1., 2.), (0., 2. ** -6), (64., 8.)], s, s == 'pnnls'))
        # integer arrays, and equality blocks with zero rows (what the geometry layer passes)
        out.append(make('int-2d-' + s, T(2, space.letters(2, (1, -1, 2), zero=False), 2, eqs=space.eq_lists(2, maxlen=1, lets=[((1, 1), 0), ((1, -2), 1)])), space.rows(2), s, True, dtype=int))
        out.append(make('zero-eq-2d-' + s, T(2, space.letters(2, (1, -1, 0), zero=False), 2), space.rows(2), s, True, empty_eq=True))
    return out


def gen_large(tier):
    for c in large.gen(tier):
        yield c + ['pnnls']
        if c[3] == 0:
            yield c + ['gurobi']


def check_large(case, ctx):
    from pympc.optimization.programs import linear_program
    A, b, C, d, f, feasible, x0 = large.build(case[:4])
    n, neq = case[0], case[2]
    ctx.state()
    r = linprog(f, A_ub=A, b_ub=b, A_eq=C if neq else None, b_eq=d if neq else None, bounds=[(None, None)] * n, method='highs')
    if r.status not in (0, 2, 3):
        ctx.skip('the reference solver gave up')
        return
    verdict = 'infeasible' if not feasible else {0: 'optimal', 2: 'infeasible', 3: 'unbounded'}[r.status]
    assert feasible == (r.status != 2)
    sol = linear_program(f, A, b, C, d, solver=case[4]) if neq else linear_program(f, A, b, solver=case[4])
    ctx.step()
    ctx.outcome(verdict)
    if verdict != 'optimal':
        need(sol['min'] is None and sol['argmin'] is None, 'LP with %d variables is %s, but min is %r', n, verdict, sol['min'])
        return
    need(sol['min'] is not None, 'LP with %d variables has the optimum %g but the solver returned None', n, r.fun)
    x = np.asarray(sol['argmin'], dtype=float)
    need(x.shape == (n,), 'argmin has shape %s', x.shape)
    sc = 1. + abs(r.fun) + np.abs(x).max()
    need(abs(sol['min'] - r.fun) <= 1e-5 * sc and abs(f.dot(x) - r.fun) <= 1e-5 * sc, 'LP with %d variables: minimum %r, cost of argmin %g, optimum %g', n, sol['min'], f.dot(x), r.fun)
    need((A.dot(x) - b).max() <= 1e-5 * sc and np.abs(C.dot(x) - d).max(initial=0.) <= 1e-5 * sc, 'argmin violates a constraint')


LAYERS = layers(lambda name, tree, costs, s, quick, **kw: LPTree(name, tree, costs, s, quick=quick, **kw))
LAYERS.append(Cases('large', gen_large, check_large, 'structured programs with 7..24 (thorough 40) variables, up to 160 rows, 0..n-1 equalities; optimum by HiGHS'))


def check_pairs(case, ctx):
    from pympc.optimization.programs import linear_program
    progs, inplace = pairs.programs(case)
    for s in ('pnnls', 'gurobi') if case[1] == 0 else ('pnnls',):
        args = None
        for H, f, I, E in progs:
            ctx.state()
            args = pairs.arrays([H, f, I, E], False, args if inplace else None)
            sol = linear_program(*args, solver=s)
            ctx.step()
            verdict, value = Poly.build(len(f), I, E).minimize(f)
            ctx.outcome(verdict)
            check_lp(sol, f, I, E, verdict, value, TOL if s == 'pnnls' else 1.e-5)


LAYERS.append(Cases('pairs', pairs.gen, check_pairs, 'one call after another: %d look-alike programs (relabelled, mirrored, one field replaced), ordered pairs i, j, i again; new arrays, or the same arrays overwritten' % sum(len(pairs.pool(b)) for b in pairs.BASES2 + pairs.BASES3)))


def check_program(build):
    def check(case, ctx):
        from pympc.optimization.programs import linear_program
        (H, f, I, E), args = build(case, False)
        verdict, value = Poly.build(len(f), I, E).minimize(f)
        ctx.state()
        ctx.outcome(verdict)
        for s in ('pnnls', 'gurobi'):
            sol = linear_program(*args, solver=s)
            ctx.step()
            check_lp(sol, f, I, E, verdict, value, TOL if s == 'pnnls' else 1.e-5)
    return check


LAYERS.append(Cases('dtypes', pairs.gen_dtypes, check_program(pairs.dtype_arrays), pairs.DTYPES))
LAYERS.append(Cases('spread', pairs.gen_spread, check_program(pairs.spread_arrays), pairs.SPREAD))
LAYERS.append(Cases('rows', pairs.gen_rows, check_program(pairs.spread_arrays), pairs.ROWS))
