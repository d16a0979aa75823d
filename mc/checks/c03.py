"""C03: the optimality certificate (multipliers and active set) returned with every LP / QP solution."""
import numpy as np
from ..core import Cases, need
from .. import large, pairs
from ..ref import Poly, dot, matvec
from . import c01, c02
from .c01 import LPTree, arr
from .c02 import QPTree


def check_certificate(sol, grad, ineqs, eqs, tol, act_tol, tight_tol):
    """grad(x) = gradient of the objective."""
    m, q = len(ineqs), len(eqs)
    x = np.asarray(sol['argmin'], dtype=float).tolist()
    lam = sol['multiplier_inequality']
    need(lam is not None, 'no inequality multipliers for a solved program')
    lam = np.asarray(lam, dtype=float)
    need(lam.shape == (m,), 'inequality multipliers have shape %s, %d inequalities', lam.shape, m)
    lam = lam.tolist()
    nu = sol['multiplier_equality']
    if q == 0:
        need(nu is None, 'equality multipliers %r without equalities', nu)
        nu = []
    else:
        need(nu is not None, 'no equality multipliers although there are %d equalities', q)
        nu = np.asarray(nu, dtype=float)
        need(nu.shape == (q,), 'equality multipliers have shape %s, %d equalities', nu.shape, q)
        nu = nu.tolist()
    big = 1. + max([abs(t) for t in x] + [abs(t) for t in lam] + [abs(t) for t in nu])
    for i, l in enumerate(lam):
        need(l >= -tol * big, 'multiplier %d is negative: %r', i, lam)
        slack = ineqs[i][1] - dot(ineqs[i][0], x)
        need(abs(l * slack) <= tol * big * (10. + abs(ineqs[i][1])), 'complementarity broken at inequality %d: multiplier %g, slack %g', i, l, slack)
    g = list(grad(x))
    for k in range(len(x)):
        s = g[k] + sum(lam[i] * ineqs[i][0][k] for i in range(m)) + sum(nu[i] * eqs[i][0][k] for i in range(q))
        need(abs(s) <= tol * big * 10., 'stationarity broken in component %d by %g: gradient %r, multipliers %r, %r', k, s, g, lam, nu)
    act = sol['active_set']
    need(act is not None, 'no active set for a solved program')
    act = [int(i) for i in act]
    need(act == sorted(set(act)) and all(0 <= i < m for i in act), 'active set %r is not a sorted list of indices', act)
    for i in range(m):
        if lam[i] > act_tol:
            need(i in act, 'inequality %d has multiplier %g but is not in the active set %r', i, lam[i], act)
        if i in act:
            slack = ineqs[i][1] - dot(ineqs[i][0], x)
            need(abs(slack) <= tight_tol * (1. + abs(ineqs[i][1])), 'inequality %d is in the active set %r but has slack %g', i, act, slack)


KEYS = c02.KEYS


class LPCert(LPTree):
    def check(self, case, ctx):
        from pympc.optimization.programs import linear_program
        ineqs, eqs, f = case
        n = self.tree.n
        p = self._p if self._p is not None else Poly.build(n, ineqs, eqs)
        verdict, _ = p.minimize(f)
        A, b = arr(ineqs, n, self.dtype)
        args = [np.array(f, dtype=self.dtype), A, b]
        if eqs or self.empty_eq:
            args += list(arr(eqs, n, self.dtype))
        sol = linear_program(*args, solver=self.solver)
        ctx.step()
        ctx.outcome(verdict)
        if verdict != 'optimal':
            need(all(sol[k] is None for k in KEYS), 'LP is %s but the certificate is %r', verdict, sol)
            return
        need(sol['argmin'] is not None, 'LP has an optimum but no certificate was returned')
        tol = 1.e-6 if self.solver == 'pnnls' else 1.e-5
        check_certificate(sol, lambda x: f, ineqs, eqs, tol, 2.e-6 if self.solver == 'pnnls' else 1.e-4, 1.e-5)


class QPCert(QPTree):
    def judge(self, sol, H, f, ineqs, eqs, p):
        if p.empty:
            need(all(sol[k] is None for k in KEYS), 'QP is infeasible but the certificate is %r', sol)
            return
        need(sol['argmin'] is not None, 'QP has an optimum but no certificate was returned')
        pn = self.solver == 'pnnls'
        tol = (1.e-5 if 'scale' in self.name else 1.e-7) if pn else 2.e-5
        check_certificate(sol, lambda x: [u + w for u, w in zip(matvec(H, x), f)], ineqs, eqs, tol, 2.e-6 if pn else 1.e-3, 1.e-5 if pn else 1.e-3)


LAYERS = (c01.layers(lambda name, tree, costs, s, quick, **kw: LPCert('lp-' + name, tree, costs, s, quick=quick, **kw))
          + c02.layers(lambda name, tree, costs, s, quick, **kw: QPCert('qp-' + name, tree, costs, s, quick=quick, **kw)))


def check_large_lp(case, ctx):
    from pympc.optimization.programs import linear_program
    A, b, C, d, f, feasible, x0 = large.build(case[:4])
    ctx.state()
    sol = linear_program(f, A, b, C, d, solver=case[4]) if case[2] else linear_program(f, A, b, solver=case[4])
    ctx.step()
    ctx.outcome('optimal' if sol['min'] is not None else 'none')
    if sol['min'] is None:
        need(all(sol[k] is None for k in KEYS), 'no minimum but a certificate: %r', sol)
        return
    need(feasible, 'certificate for an infeasible LP')
    check_certificate(sol, lambda x: f.tolist(), [(a.tolist(), t) for a, t in zip(A, b)], [(a.tolist(), t) for a, t in zip(C, d)], 1e-5, 1e-4, 1e-4)


def check_large_qp(case, ctx):
    sol, H, f, A, b, C, d, feasible = c02.large_qp(case, ctx)
    if not feasible:
        need(all(sol[k] is None for k in KEYS), 'infeasible but a certificate: %r', sol)
        return
    need(sol['min'] is not None, 'QP is feasible but no certificate was returned')
    check_certificate(sol, lambda x: (H.dot(np.array(x)) + f).tolist(), [(a.tolist(), t) for a, t in zip(A, b)], [(a.tolist(), t) for a, t in zip(C, d)], 2e-5, 1e-3, 1e-3)


LAYERS.append(Cases('large-lp', c01.gen_large, check_large_lp, 'structured LPs with 7..24 (thorough 40) variables'))
LAYERS.append(Cases('large-qp', c02.gen_large, check_large_qp, 'structured QPs with 7..24 (thorough 40) variables'))


def check_pairs_lp(case, ctx):
    from pympc.optimization.programs import linear_program
    progs, inplace = pairs.programs(case)
    for s in ('pnnls', 'gurobi') if case[1] == 0 else ('pnnls',):
        args = None
        for H, f, I, E in progs:
            ctx.state()
            args = pairs.arrays([H, f, I, E], False, args if inplace else None)
            sol = linear_program(*args, solver=s)
            ctx.step()
            verdict, _ = Poly.build(len(f), I, E).minimize(f)
            ctx.outcome(verdict)
            if verdict != 'optimal':
                need(all(sol[k] is None for k in KEYS), 'LP is %s but the certificate is %r', verdict, sol)
                continue
            need(sol['argmin'] is not None, 'LP has an optimum but no certificate was returned')
            check_certificate(sol, lambda x: f, I, E, 1e-6 if s == 'pnnls' else 1e-5, 2e-6 if s == 'pnnls' else 1e-4, 1e-5)


def check_pairs_qp(case, ctx):
    def judge(sol, H, f, I, E, p, s):
        if p.empty:
            need(all(sol[k] is None for k in KEYS), 'QP is infeasible but the certificate is %r', sol)
            return
        need(sol['argmin'] is not None, 'QP has an optimum but no certificate was returned')
        pn = s == 'pnnls'
        check_certificate(sol, lambda x: [u + w for u, w in zip(matvec(H, x), f)], I, E, 1e-7 if pn else 2e-5, 2e-6 if pn else 1e-3, 1e-5 if pn else 1e-3)
    c02.run_pairs(case, ctx, judge)


LAYERS.append(Cases('pairs-lp', pairs.gen, check_pairs_lp, 'look-alike LPs solved one after the other (as in C01)'))
LAYERS.append(Cases('pairs-qp', pairs.gen, check_pairs_qp, 'look-alike QPs solved one after the other (as in C02)'))


def lp_program(build):
    def check(case, ctx):
        from pympc.optimization.programs import linear_program
        (H, f, I, E), args = build(case, False)
        verdict, _ = Poly.build(len(f), I, E).minimize(f)
        ctx.state()
        ctx.outcome(verdict)
        for s in ('pnnls', 'gurobi'):
            sol = linear_program(*args, solver=s)
            ctx.step()
            if verdict != 'optimal':
                need(all(sol[k] is None for k in KEYS), 'LP is %s but the certificate is %r', verdict, sol)
                continue
            need(sol['argmin'] is not None, 'LP has an optimum but no certificate was returned')
            check_certificate(sol, lambda x: f, I, E, 1e-6 if s == 'pnnls' else 1e-5, 2e-6 if s == 'pnnls' else 1e-4, 1e-5)
    return check


def judge_qp(sol, H, f, I, E, p, s):
    if p.empty:
        need(all(sol[k] is None for k in KEYS), 'QP is infeasible but the certificate is %r', sol)
        return
    need(sol['argmin'] is not None, 'QP has an optimum but no certificate was returned')
    pn = s == 'pnnls'
    check_certificate(sol, lambda x: [u + w for u, w in zip(matvec(H, x), f)], I, E, 1e-6 if pn else 2e-5, 2e-6 if pn else 1e-3, 1e-5 if pn else 1e-3)


for _name, _gen, _build, _bounds in (('dtypes', pairs.gen_dtypes, pairs.dtype_arrays, pairs.DTYPES), ('spread', pairs.gen_spread, pairs.spread_arrays, pairs.SPREAD)):
    LAYERS.append(Cases(_name + '-lp', _gen, lp_program(_build), _bounds))
    LAYERS.append(Cases(_name + '-qp', _gen if _gen is not pairs.gen_spread else pairs.gen_spread_qp, c02.run_program(_build, judge_qp), _bounds))


def gen_steep(tier):
    """Separable and coupled QPs at a corner, multipliers of every combination of sizes."""
    import itertools
    sizes = (.25, 8., 4096.) if tier == 'quick' else (.25, 1., 64., 1024., 4096.)
    for n in (1, 2, 3):
        for mul in itertools.product((0.,) + sizes, repeat=n):
            for H in range(2):
                for b in (0., .5):
                    yield [n, list(mul), H, b]


def check_steep(case, ctx):
    from pympc.optimization.programs import quadratic_program
    n, mul, h, b = case
    H = np.eye(n) * 2. + h * (np.eye(n, k=1) + np.eye(n, k=-1)) * .5
    x = np.full(n, b)
    f = -H.dot(x) - np.array(mul)           # stationary at x with the multipliers mul on x <= b
    A = np.vstack((np.eye(n), -np.eye(n)))
    B = np.concatenate((x, np.full(n, 64.)))
    ctx.state()
    sol = quadratic_program(H, f, A, B)
    ctx.step()
    need(sol['argmin'] is not None, 'QP has an optimum but no certificate was returned')
    big = 1. + max(mul)
    need(np.abs(sol['argmin'] - x).max() <= 1e-6 * big, 'argmin %r instead of %r', sol['argmin'].tolist(), x.tolist())
    lam = np.asarray(sol['multiplier_inequality'])
    need(lam.shape == (2 * n,) and np.abs(lam - np.array(mul + [0.] * n)).max() <= 1e-5 * big, 'multipliers %r instead of %r', lam.tolist(), mul)
    act = [int(i) for i in sol['active_set']]
    need(set(i for i in range(n) if mul[i] > 0.) <= set(act) <= set(range(n)), 'active set %r for the multipliers %r', act, mul)
    ctx.outcome('%d active' % sum(m > 0 for m in mul))


LAYERS.append(Cases('steep-qp', gen_steep, check_steep, 'corners of boxes in dimension 1..3, multipliers of every combination of sizes 0, 1/4..4096'))
LAYERS.append(Cases('rows-lp', pairs.gen_rows, lp_program(pairs.spread_arrays), pairs.ROWS))
LAYERS.append(Cases('rows-qp', pairs.gen_rows, c02.run_program(pairs.spread_arrays, judge_qp), pairs.ROWS))
