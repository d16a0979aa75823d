"""C02: verdict and minimiser of strictly convex quadratic programs (both solvers)."""
import numpy as np
from ..core import Cases, need
from ..ref import Poly, dot, matvec
from .. import large, ocp, pairs, space
from .c01 import LPTree, arr, box

KEYS = ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality')


def quad(H, f, x):
    return .5 * dot(x, matvec(H, x)) + dot(f, x)


def check_qp(sol, H, f, ineqs, eqs, p, tol, keys=KEYS):
    need(set(keys) <= set(sol), 'missing keys in %r', sorted(sol))
    if p.empty:
        bad = [k for k in keys if sol[k] is not None]
        need(not bad, 'QP is infeasible but %s is not None: %r', bad, sol)
        return
    need(sol['min'] is not None and sol['argmin'] is not None, 'QP is feasible but the solver found no minimum')
    x = np.asarray(sol['argmin'], dtype=float)
    need(x.shape == (len(f),), 'argmin has shape %s', x.shape)
    x = x.tolist()
    v = quad(H, f, x)
    mag = 1. + max(abs(t) for t in x)
    need(abs(float(sol['min']) - v) <= tol * (1. + abs(v)), 'min is %r but the cost of argmin %r is %r', sol['min'], x, v)
    for a, b in ineqs:
        need(dot(a, x) - b <= tol * (mag + abs(b)), 'argmin %r violates %r x <= %r', x, a, b)
    for c, d in eqs:
        need(abs(dot(c, x) - d) <= tol * (mag + abs(d)), 'argmin %r violates %r x == %r', x, c, d)
    # exact optimality test: the gradient makes a non-obtuse angle with every generator of the feasible set
    g = [u + w for u, w in zip(matvec(H, x), f)]
    gm = 1. + max(abs(t) for t in g)
    w = p.vi(g, x)
    need(w <= tol * gm * mag * 10., 'argmin %r is not optimal: a feasible direction decreases the cost at rate %g', x, w)


class QPTree(LPTree):
    """costs: list of (H, f)."""

    def check(self, case, ctx):
        from pympc.optimization.programs import quadratic_program
        ineqs, eqs, (H, f) = case
        n = self.tree.n
        p = self._p if self._p is not None else Poly.build(n, ineqs, eqs)
        A, b = arr(ineqs, n, self.dtype)
        args = [np.array(H, dtype=self.dtype), np.array(f, dtype=self.dtype), A, b]
        if eqs or self.empty_eq:
            args += list(arr(eqs, n, self.dtype))
        if p.flat(len(eqs)) and not p.empty and H != eye(n):
            # feasible, but any roundoff in A H^-1 A' can make it infeasible: no verdict can be expected
            ctx.skip('feasible set without relative interior and H not the identity')
            return
        sol = quadratic_program(*args, solver=self.solver)
        ctx.step()
        ctx.outcome('infeasible' if p.empty else 'optimal')
        self.judge(sol, H, f, ineqs, eqs, p)

    def judge(self, sol, H, f, ineqs, eqs, p):
        # relative accuracy; the scaled layers lose digits with the square of the scale
        tol = (1.e-5 if 'scale' in self.name else 1.e-7) if self.solver == 'pnnls' else 2.e-5
        check_qp(sol, H, f, ineqs, eqs, p, tol)


I2, T2, D2, S2 = [[1, 0], [0, 1]], [[2, 1], [1, 2]], [[1, 0], [0, 16]], [[5, -2], [-2, 1]]


def eye(n, k=1):
    return [[k if i == j else 0 for j in range(n)] for i in range(n)]


def band(n):
    return [[5 if i == j else (1 if abs(i - j) == 1 else (-1 if abs(i - j) == 2 else 0)) for j in range(n)] for i in range(n)]


def layers(make):
    T = space.Tree
    out = []
    for s in ('pnnls', 'gurobi'):
        pn = s == 'pnnls'
        c2 = [(I2, (0, 0)), (I2, (1, -3)), (T2, (0, 4)), (D2, (-2, 1)), (S2, (1, 1))]
        out.append(make('seq-2d-' + s, T(2, space.letters(2, (0, 2, -1)), 3 if pn else 2), c2, s, True))
        out.append(make('set-2d-' + s, T(2, space.letters(2, (1, -1), zero=False), 4, ordered=False, min_depth=3), c2, s, pn))
        out.append(make('eq-2d-' + s, T(2, space.letters(2, (1, -1), zero=False), 2, eqs=space.eq_lists(2, maxlen=2)[1:]), c2[1:4], s, pn))
        out.append(make('eq1-2d-' + s, T(2, space.letters(2, (0, 1), zero=False), 2, eqs=space.eq_lists(2, maxlen=1)[1:]), c2, s, True))
        out.append(make('1d-' + s, T(1, space.letters(1, (0, 1, -1, 3), vals=(-2, -1, 0, 1, 3)), 3 if pn else 2, eqs=[(), (((1,), 1),), (((2,), -1),), (((0,), 0),), (((0,), 1),), (((1,), 1), ((2,), 2))]),
                        [([[1]], (0,)), ([[1]], (5,)), ([[4]], (-2,))], s, True))
        c3 = [(eye(3), (1, 0, -2)), (band(3), (-3, 2, 1)), (eye(3, 2), (0, 0, 0)), ([[4, 1, 0], [1, 1, 0], [0, 0, 2]], (1, 1, 1))]
        out.append(make('set-3d-' + s, T(3, space.letters(3, (1, -1), only=[(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (1, 1, 1), (-1, -1, -1), (1, -1, 0), (0, 1, -2)]), 4 if pn else 3, ordered=False, min_depth=3), c3, s, True))
        out.append(make('eq-3d-' + s, T(3, space.letters(3, (1,), only=[(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]), 3, ordered=False, min_depth=2,
                                    eqs=space.eq_lists(3, maxlen=2, lets=[((1, 1, 1), 0), ((1, -1, 0), 0), ((0, 1, 2), 1), ((1, 0, 0), -1), ((2, 2, 2), 1)])[1:]), c3, s, True))
        for n in (1, 2, 3):
            e1 = tuple([1] * n)
            out.append(make('none-%dd-%s' % (n, s), T(n, [], 0, eqs=[(), ((e1, 1),), ((e1, 1), (tuple([2] * n), 2)), ((e1, 1), (e1, 0)), ((tuple([0] * n), 0),)]), [(eye(n), e1), (eye(n, 3), tuple([-2] + [0] * (n - 1)))], s, True))
        for n in (4, 5, 6):
            cuts = [(tuple([1] * n), 1), (tuple([-1] * n), 0), (tuple([1, -1] + [0] * (n - 2)), 0), (tuple(range(n)), 2), (tuple([0] * (n - 1) + [1]), 0), (tuple([-2] + [0] * (n - 2) + [1]), -1), (tuple([0] * n), 1)]
            eqs = [(), ((tuple([1] * n), 0),), ((tuple([1] * (n - 1) + [-1]), 1), (tuple([0, 1, 1] + [0] * (n - 3)), 0)),
                   ((tuple([1, 1] + [0] * (n - 2)), 0), (tuple([0, 0, 1] + [0] * (n - 3)), 1), (tuple([0, 0, 0, 2] + [0] * (n - 4)), -1))]
            fs = [tuple([1] * n), tuple([-3] * n), tuple((-1) ** i * (i + 1) for i in range(n)), tuple([0] * n)]
            cn = [(eye(n), f) for f in fs[:3]] + [(band(n), f) for f in fs[1:]]
            out.append(make('box-%dd-%s' % (n, s), T(n, cuts, 3, eqs=eqs, ordered=False, base=box(n, -1, 2)), cn, s, True))
            out.append(make('halfbox-%dd-%s' % (n, s), T(n, cuts, 2, eqs=eqs[:3], ordered=False, base=box(n, -1, 2)[:-1]), cn, s, True))
        g = 2. ** -12
        small = (g, -g, 2. ** -16, -2. ** -16) if pn else (g, -g)
        out.append(make('thin-1d-' + s, T(1, space.letters(1, (0., 1., 1. + g, -1., -1. - g) + small, vals=(-1, 1)), 3, ordered=False, min_depth=2), [([[1.]], (1.,)), ([[1.]], (g,)), ([[2.]], (0.,))], s, True))
        out.append(make('thin-2d-' + s, T(2, space.letters(2, (0., 1., -1. - g, -g, g), only=[(1, 0), (-1, 0), (0, 1), (0, -1), (-1, -1), (1, 1)]), 4 if pn else 3, ordered=False, min_depth=3),
                        [(I2, (1., -1.)), (T2, (g, 3.))], s, True))
        for k in (-8, -4, 4, 6):
            m = 2. ** k
            out.append(make('scale%d-2d-%s' % (k, s), T(2, space.letters(2, (m, -m), only=[(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 2)]), 4, ordered=False, min_depth=3, eqs=[(), (((1, 1), m),)]),
                            [(I2, (0., 2. * m)), (S2, (-3. * m, m)), ([[64., 0], [0, 1.]], (0., -8. * m))], s, pn))
        # feasible sets far away from the unconstrained optimum
        for k in (9, 14):
            m = 2. ** k
            out.append(make('far-scale%d-2d-%s' % (k, s), T(2, [((-1., 0.), -m), ((1., 0.), 2. * m), ((0., -1.), -m), ((0., 1.), 3. * m), ((-1., -1.), -m), ((1., -2.), m), ((0., 1.), -m), ((2., 1.), -m)], 3, ordered=False, eqs=[(), (((1., -1.), m),)]),
                            [(I2, (0., 0.)), (T2, (0., 1.)), (D2, (-2., 0.))], s, True))
        # large gradients, optimum close to the unconstrained one: small multipliers next to large data
        out.append(make('biggrad-scale-1d-' + s, T(1, [((a,), a * t) for a in (1., -1., 2., -.25) for t in (63.875, 64., 64.125, -200.)], 2), [([[1.]], (-64.,)), ([[4.]], (-256.,)), ([[.25]], (16.,))], s, True))
        out.append(make('biggrad-scale-2d-' + s, T(2, [((1., 0.), 63.875), ((0., -1.), 31.75), ((-1., 0.), -64.25), ((1., -1.), 95.5), ((2., 1.), 95.75), ((0., 1.), -32.5), ((-1., -1.), -31.75)], 3, ordered=False, eqs=[(), (((1., 1.), 32.25),)]),
                        [(I2, (-64., 32.)), ([[2., 1.], [1., 2.]], (-96., 0.)), ([[4., 0.], [0., .5]], (-256., 16.))], s, True))
        out.append(make('int-2d-' + s, T(2, space.letters(2, (1, -1, 2), zero=False), 2, eqs=space.eq_lists(2, maxlen=1, lets=[((1, 1), 0), ((1, -2), 1)])), c2, s, True, dtype=int))
        out.append(make('zero-eq-2d-' + s, T(2, space.letters(2, (1, -1, 0), zero=False), 2), c2, s, True, empty_eq=True))
    return out


LAYERS = layers(lambda name, tree, costs, s, quick, **kw: QPTree(name, tree, costs, s, quick=quick, **kw))


def gen_large(tier):
    for c in large.gen(tier):
        yield c + ['pnnls']
        if c[3] == 1:
            yield c + ['gurobi']


def large_qp(case, ctx):
    """(solution, H, f, A, b, C, d, feasible)"""
    from pympc.optimization.programs import quadratic_program
    A, b, C, d, f, feasible, x0 = large.build(case[:4])
    H = large.hessian(case[0], case[3])
    ctx.state()
    f = 4. * f
    sol = quadratic_program(H, f, A, b, C, d, solver=case[4]) if case[2] else quadratic_program(H, f, A, b, solver=case[4])
    ctx.step()
    ctx.outcome('optimal' if feasible else 'infeasible')
    return sol, H, f, A, b, C, d, feasible


def check_large(case, ctx):
    sol, H, f, A, b, C, d, feasible = large_qp(case, ctx)
    n = case[0]
    if not feasible:
        need(sol['min'] is None and sol['argmin'] is None, 'QP with %d variables is infeasible, but min is %r', n, sol['min'])
        return
    need(sol['min'] is not None, 'QP with %d variables is feasible but the solver returned None', n)
    x = np.asarray(sol['argmin'], dtype=float)
    need(x.shape == (n,), 'argmin has shape %s', x.shape)
    v = .5 * x.dot(H).dot(x) + f.dot(x)
    sc = 1. + abs(v) + np.abs(x).max()
    need(abs(sol['min'] - v) <= 1e-5 * sc, 'min is %r, argmin costs %g', sol['min'], v)
    need((A.dot(x) - b).max() <= 1e-5 * sc and np.abs(C.dot(x) - d).max(initial=0.) <= 1e-5 * sc, 'argmin violates a constraint')
    g = H.dot(x) + f
    gap = ocp.kkt_gap(g, list(zip(A, b)), list(zip(C, d)), x, n, act_tol=1e-5)
    need(gap <= 1e-3 * (1. + np.abs(g).max()), 'argmin of a QP with %d variables is not optimal (KKT residual %g)', n, gap)


LAYERS.append(Cases('large', gen_large, check_large, 'structured programs with 7..24 (thorough 40) variables, up to 160 rows, 0..n-1 equalities; optimality by KKT certificate'))


def run_pairs(case, ctx, judge):
    """judge(sol, H, f, I, E, p, solver) for every call of the history."""
    from pympc.optimization.programs import quadratic_program
    progs, inplace = pairs.programs(case)
    for s in ('pnnls', 'gurobi') if case[1] == 0 else ('pnnls',):
        args = None
        for H, f, I, E in progs:
            ctx.state()
            args = pairs.arrays([H, f, I, E], True, args if inplace else None)
            p = Poly.build(len(f), I, E)
            if p.flat(len(E)) and not p.empty:
                ctx.skip('feasible set without relative interior')
                continue
            sol = quadratic_program(*args, solver=s)
            ctx.step()
            ctx.outcome('infeasible' if p.empty else 'optimal')
            judge(sol, H, f, I, E, p, s)


def check_pairs(case, ctx):
    run_pairs(case, ctx, lambda sol, H, f, I, E, p, s: check_qp(sol, H, f, I, E, p, 1e-7 if s == 'pnnls' else 2e-5))


LAYERS.append(Cases('pairs', pairs.gen, check_pairs, 'one call after another: %d look-alike programs (relabelled, mirrored, one field replaced), ordered pairs i, j, i again; new arrays, or the same arrays overwritten' % sum(len(pairs.pool(b)) for b in pairs.BASES2 + pairs.BASES3)))


def run_program(build, judge):
    def check(case, ctx):
        from pympc.optimization.programs import quadratic_program
        (H, f, I, E), args = build(case, True)
        p = Poly.build(len(f), I, E)
        ctx.state()
        if p.flat(len(E)) and not p.empty:
            ctx.skip('feasible set without relative interior')
            return
        ctx.outcome('infeasible' if p.empty else 'optimal')
        for s in ('pnnls', 'gurobi'):
            sol = quadratic_program(*args, solver=s)
            ctx.step()
            judge(sol, H, f, I, E, p, s)
    return check


def judge_program(sol, H, f, I, E, p, s):
    check_qp(sol, H, f, I, E, p, 1e-6 if s == 'pnnls' else 1e-4)


LAYERS.append(Cases('dtypes', pairs.gen_dtypes, run_program(pairs.dtype_arrays, judge_program), pairs.DTYPES))
LAYERS.append(Cases('spread', pairs.gen_spread_qp, run_program(pairs.spread_arrays, judge_program), pairs.SPREAD))
LAYERS.append(Cases('rows', pairs.gen_rows, run_program(pairs.spread_arrays, judge_program), pairs.ROWS))
