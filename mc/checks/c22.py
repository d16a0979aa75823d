"""
C22: the explicit solution.  For every problem: every active set is enumerated independently; the center of every critical
region it may own, plus a full grid of parameters, is looked up in the stored explicit solution and the answer certified
(feasible, KKT with the returned multipliers, value), or the parameter must be infeasible.
"""
import contextlib
import io
import itertools
import numpy as np
from scipy.optimize import linprog
from ..core import Cases, need
from .. import poly, ocp
from . import c21


class NotApplicable(Exception):
    """Regions do not share whole facets: explicit_solve documents that it does not handle these problems."""


class MP(object):
    """min 1/2 u'Huu u + x'Hxu u + ... s.t. Au u + Ax x <= b, as plain float data."""

    def __init__(self, Huu, Hux, Hxx, fu, fx, g, Au, Ax, b):
        f = lambda M: np.array(M, dtype=float)
        self.Huu, self.Hux, self.Hxx, self.fu, self.fx, self.g, self.Au, self.Ax, self.b = f(Huu), f(Hux), f(Hxx), f(fu), f(fx), float(g), f(Au), f(Ax), f(b)
        self.nu, self.nx = self.Huu.shape[0], self.Hxx.shape[0]

    @staticmethod
    def from_ocp(o):
        nx = o.nx
        H = o.H
        rows, eqs = o.feasible_param_rows()
        assert not eqs
        A, b = ocp.num(rows, nx + o.N * o.nu)
        return MP(H[nx:-1, nx:-1], H[nx:-1, :nx], H[:nx, :nx], H[nx:-1, -1], H[:nx, -1], .5 * H[-1, -1], A[:, nx:], A[:, :nx], b)

    def value(self, x, u):
        return .5 * u.dot(self.Huu).dot(u) + u.dot(self.Hux).dot(x) + .5 * x.dot(self.Hxx).dot(x) + self.fu.dot(u) + self.fx.dot(x) + self.g

    def at(self, x):
        b = self.b - self.Ax.dot(x)
        return [(self.Au[i].tolist(), b[i]) for i in range(len(b))]

    def margin(self, x):
        return ocp.margin(self.at(x), [], self.nu)

    def real(self):
        from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
        c = lambda M: M.copy()
        return MultiParametricQuadraticProgram({'uu': c(self.Huu), 'ux': c(self.Hux), 'xx': c(self.Hxx)}, {'u': c(self.fu), 'x': c(self.fx)}, self.g, {'u': c(self.Au), 'x': c(self.Ax)}, c(self.b))

    def region_centers(self, kmax, limit):
        """Chebyshev centers of the critical regions of all active sets with up to kmax rows (own KKT solution)."""
        Hi = np.linalg.inv(self.Huu)
        m = len(self.b)
        out = []
        self.regions, self.owners = [], []
        count = 0
        for k in range(0, kmax + 1):
            for act in itertools.combinations(range(m), k):
                count += 1
                if count > limit:
                    return out, count, False
                Aa = self.Au[list(act)]
                ina = [i for i in range(m) if i not in act]
                S = Aa.dot(Hi).dot(Aa.T)
                if k and np.linalg.cond(S) > 1e10:
                    continue
                Si = np.linalg.inv(S) if k else np.zeros((0, 0))
                # lambda = Lx x + L0, u = Ux x + U0
                Lx = Si.dot(self.Ax[list(act)] - Aa.dot(Hi).dot(self.Hux)) if k else np.zeros((0, self.nx))
                L0 = -Si.dot(self.b[list(act)] + Aa.dot(Hi).dot(self.fu)) if k else np.zeros(0)
                Ux = -Hi.dot(self.Hux + Aa.T.dot(Lx))
                U0 = -Hi.dot(self.fu + Aa.T.dot(L0))
                A = np.vstack((-Lx, self.Au[ina].dot(Ux) + self.Ax[ina]))
                b = np.concatenate((L0, self.b[ina] - self.Au[ina].dot(U0)))
                nr = np.linalg.norm(A, axis=1)
                if np.any(b[nr < 1e-9] < -1e-9):
                    continue
                A, b, nr = A[nr >= 1e-9], b[nr >= 1e-9], nr[nr >= 1e-9]
                # largest ball inside the region and a big box
                r = linprog(np.concatenate((np.zeros(self.nx), [-1.])), A_ub=np.hstack((A, nr[:, None])), b_ub=b, bounds=[(-20., 20.)] * self.nx + [(None, 1.)], method='highs')
                if r.status == 0 and -r.fun > 1e-4:
                    out.append((r.x[:-1], -r.fun))
                    self.owners.append(list(act))
                    self.regions.append((A / nr[:, None], b / nr))
        return out, count, True

    def facet_to_facet(self):
        """Do the enumerated regions share whole facets (what explicit_solve documents as its assumption)?"""
        lim = [(-20., 20.)] * self.nx
        for k, (A, b) in enumerate(self.regions):
            for i in range(len(b)):
                oth = [j for j in range(len(b)) if j != i and np.abs(A[j] - A[i]).max() > 1e-7]
                r = self._facet(A, b, i, oth, None)
                if r is None or r < 1e-4:
                    continue
                for l, (A1, b1) in enumerate(self.regions):
                    if l == k:
                        continue
                    r = self._facet(A, b, i, oth, (A1, b1))
                    if r is None or r < 1e-4:
                        continue
                    for j in range(len(b1)):
                        q = linprog(-A1[j], A_ub=A[oth] if oth else None, b_ub=b[oth] if oth else None, A_eq=A[i:i + 1], b_eq=b[i:i + 1], bounds=lim, method='highs')
                        if q.status == 0 and -q.fun > b1[j] + 1e-4:
                            return False
        return True

    def _facet(self, A, b, i, oth, other):
        """Radius of the i-th facet of {A x <= b} (intersected with another region), inside its hyperplane."""
        R, v = A[oth], b[oth]
        if other is not None:
            R, v = np.vstack((R, other[0])), np.concatenate((v, other[1]))
        tang = R - np.outer(R.dot(A[i]), A[i])
        nr = np.linalg.norm(tang, axis=1)
        q = linprog(np.concatenate((np.zeros(self.nx), [-1.])), A_ub=np.hstack((R, nr[:, None])), b_ub=v + 1e-9, A_eq=np.concatenate((A[i], [0.]))[None, :], b_eq=b[i:i + 1], bounds=[(-20., 20.)] * self.nx + [(0., 1.)], method='highs')
        return -q.fun if q.status == 0 else None


def judge_point(mp, sol, x, ctx, m=None, force=False):
    """sol: ExplicitSolution."""
    if m is None:
        m = mp.margin(x)
    u, p, V = sol.u(x), sol.p(x), sol.V(x)
    ctx.step(3)
    need((u is None) == (p is None) == (V is None), 'inconsistent lookup at %r: u %r, p %r, V %r', x.tolist(), u, p, V)
    if u is None:
        if force or (m is not None and m > 1e-4):
            if not mp.facet_to_facet():
                raise NotApplicable
            need(False, 'no solution stored for x=%r, where the program is feasible (margin %r)', x.tolist(), m)
        ctx.outcome('infeasible')
        return False
    need(m is not None and m > -1e-5, 'u=%r stored for x=%r, where the program is infeasible (margin %r)', np.asarray(u).tolist(), x.tolist(), m)
    ctx.outcome('stored')
    need(np.shape(u) == (mp.nu,) and np.shape(p) == (len(mp.b),), 'shapes of u %s and p %s', np.shape(u), np.shape(p))
    sc = 1. + np.abs(u).max() + np.abs(x).max()
    s = mp.b - mp.Ax.dot(x) - mp.Au.dot(u)
    need(s.min(initial=0.) >= -1e-5 * sc, 'u=%r violates a constraint by %g at x=%r', u.tolist(), -s.min(), x.tolist())
    ps = 1. + np.abs(p).max(initial=0.)
    need(p.min(initial=0.) >= -1e-5 * ps, 'negative multiplier %g at x=%r', p.min(), x.tolist())
    need(np.abs(p * s).max(initial=0.) <= 1e-4 * ps * sc, 'positive multiplier on a slack constraint at x=%r (%g)', x.tolist(), np.abs(p * s).max())
    st = mp.Huu.dot(u) + mp.Hux.dot(x) + mp.fu + mp.Au.T.dot(p)
    need(np.abs(st).max() <= 1e-4 * ps * sc, 'u=%r, p=%r are not stationary at x=%r (%g)', u.tolist(), p.tolist(), x.tolist(), np.abs(st).max())
    v = mp.value(x, u)
    need(abs(v - V) <= 1e-5 * (1. + abs(v)), 'V=%r at x=%r, the stored minimiser costs %g', V, x.tolist(), v)
    return True


# -- MPC problems -----------------------------------------------------------------------------------------------------------

def gen_mpc(tier):
    cap = 3 if tier == 'quick' else 4
    for c in c21.combos(tier):
        s, N, d, t, w = c
        A, B = c21.SYSTEMS[s]
        nx, nu = len(A), len(B[0])
        if d in ('tied', 'tied-only') or t in ('face', 'plane', 'point') or N * nu > cap or nx > 3 or (nx == 3 and N * nu > (2 if tier == 'quick' else 3)):
            continue
        if tier == 'quick' and (list(c21.domains(nx, nu)).index(d) + list(c21.terminals(nx)).index(t) + list(c21.costs(nx, nu)).index(w) + N) % 3:
            continue
        yield list(c)
    for c in [['double', 5, 'box', 'box', 'unit'], ['double', 4, 'inputs', 'slab', 'zeroQ'], ['double', 4, 'redundant', 'box', 'zeroQ'], ['coupled-2u', 2, 'redundant', 'slab', 'zeroQ'], ['chain3', 3, 'asym', 'box', 'unit'], ['chain4', 2, 'box', 'box', 'unit'],
              ['scalar', 8, 'asym', 'box', 'weights'], ['three-u', 2, 'box', 'box', 'weights']]:
        yield c


def grid(nx, tier):
    k = {1: 61, 2: 15, 3: 5, 4: 3}[nx] if tier == 'quick' else {1: 241, 2: 31, 3: 9, 4: 5}[nx]
    return itertools.product(np.linspace(-3., 3., k), repeat=nx)


def options(i):
    return [{}, {'step_size': 1.e-4}, {'verbose': True}, {'step_size': 3.e-6}][i % 4]


def check_mpc(case, ctx):
    try:
        _check_mpc(case, ctx)
    except NotApplicable:
        ctx.skip('facet-to-facet property does not hold')


def _check_mpc(case, ctx):
    ref, C, nx, nu = c21.problem(case)
    mp = MP.from_ocp(ref)
    N = ref.N
    opt = options(sum(map(ord, str(case))))
    with contextlib.redirect_stdout(io.StringIO()):
        C.store_explicit_solution(**opt)
    ctx.state()
    ctx.step()
    cs, count, complete = mp.region_centers(N * nu, 700 if ctx.tier == 'quick' else 4000)
    ctx.state(count)
    ctx.outcome('all active sets' if complete else 'active sets up to the limit')
    for c, r in cs:
        judge_point(mp, C.explicit_solution, c, ctx, force=True)
    for x in grid(nx, ctx.tier):
        x = np.array(x)
        ctx.state()
        stored = judge_point(mp, C.explicit_solution, x, ctx)
        u, V = C.feedforward_explicit(x)
        f = C.feedback_explicit(x)
        ctx.step(2)
        if not stored:
            need(u is None and V is None and f is None, 'feedforward %r, %r, feedback %r where nothing is stored', u, V, f)
            continue
        uf = c21.flat(u, N, nu)
        need(np.abs(uf - C.explicit_solution.u(x)).max() <= 1e-9 * (1 + np.abs(uf).max()) and V == C.explicit_solution.V(x), 'feedforward differs from the stored solution')
        need(np.shape(f) == (nu,) and np.array_equal(f, u[0]), 'explicit feedback %r is not the first input %r', f, u[0])


# -- generic parametric programs ----------------------------------------------------------------------------------------------

def gen_mp(tier):
    rows2 = [((1, 0), (0,), 1), ((-1, 0), (0,), 1), ((0, 1), (1,), 1), ((0, -1), (.5,), 1.5), ((1, 1), (-1,), 1), ((-1, 1), (.25,), 2), ((0, 0), (1,), 3)]
    rows1 = [((1,), (0, 0), 1), ((-1,), (0, 0), 1), ((1,), (1, 0), 1), ((-2,), (0, 1), 1), ((1,), (-1, .5), 2), ((0,), (1, 1), 2), ((0,), (-1, 0), 2)]
    H2 = [([[1, 0], [0, 1]], [[0], [0]]), ([[2, .5], [.5, 1]], [[1], [-1]]), ([[4, 1], [1, .5]], [[0], [2]])]
    H1 = [([[1]], [[1, 0]]), ([[.25]], [[1, -1]])]
    for nu, rows, Hs, nx in ((2, rows2, H2, 1), (1, rows1, H1, 2)):
        for k in range(1, 6):
            for sub in itertools.combinations(range(len(rows)), k):
                for h in range(len(Hs)):
                    for off in range(3):
                        if tier == 'quick' and (sum(sub) + h + off) % 3:
                            continue
                        yield [nu, nx, list(sub), h, off]


def build(case):
    rows2 = [((1, 0), (0,), 1), ((-1, 0), (0,), 1), ((0, 1), (1,), 1), ((0, -1), (.5,), 1.5), ((1, 1), (-1,), 1), ((-1, 1), (.25,), 2), ((0, 0), (1,), 3)]
    rows1 = [((1,), (0, 0), 1), ((-1,), (0, 0), 1), ((1,), (1, 0), 1), ((-2,), (0, 1), 1), ((1,), (-1, .5), 2), ((0,), (1, 1), 2), ((0,), (-1, 0), 2)]
    H2 = [([[1, 0], [0, 1]], [[0], [0]]), ([[2, .5], [.5, 1]], [[1], [-1]]), ([[4, 1], [1, .5]], [[0], [2]])]
    H1 = [([[1]], [[1, 0]]), ([[.25]], [[1, -1]])]
    if len(case) == 6:
        return shifted(build(case[:5]), case[5])
    nu, nx, sub, h, off = case
    rows, Hs = (rows2, H2) if nu == 2 else (rows1, H1)
    Huu, Hux = Hs[h]
    fu = [[0] * nu, [1, -.5][:nu], [-2, 1][:nu]][off]
    fx = [[0] * nx, [.5] * nx, [-1] * nx][off]
    return MP(Huu, Hux, [[3 if i == j else 1 for j in range(nx)] for i in range(nx)], fu, fx, [0., 2., -1.5][off], [rows[i][0] for i in sub], [rows[i][1] for i in sub], [rows[i][2] for i in sub])


def shifted(mp, s):
    """The same program after the change of parameter x -> x - s."""
    s = np.array(s, dtype=float)
    return MP(mp.Huu, mp.Hux, mp.Hxx, mp.fu - mp.Hux.dot(s), mp.fx - mp.Hxx.dot(s), mp.g - mp.fx.dot(s) + .5 * s.dot(mp.Hxx).dot(s), mp.Au, mp.Ax, mp.b + mp.Ax.dot(s))


def gen_shifted(tier):
    for case in gen_mp(tier):
        for i, sh in enumerate(([2.5, 0], [-2.25, 3], [7, -5])):
            if tier == 'quick' and i != (sum(case[2]) + case[4]) % 3:
                continue
            yield case + [sh[:case[1]]]


def check_mp(case, ctx):
    try:
        _check_mp(case, ctx)
    except NotApplicable:
        ctx.skip('facet-to-facet property does not hold')


def _check_mp(case, ctx):
    mp = build(case)
    q = mp.real()
    ctx.state()
    opt = options(sum(map(ord, str(case))))
    with contextlib.redirect_stdout(io.StringIO()):
        sol = q.explicit_solve(**opt)
    ctx.step()
    cs, count, complete = mp.region_centers(mp.nu, 4000)
    for c, r in cs:
        ctx.state()
        judge_point(mp, sol, c, ctx, force=True)
    for x in grid(mp.nx, 'quick'):
        x = np.array(x) + (case[5] if len(case) == 6 else 0.)
        ctx.state()
        m = mp.margin(x)
        judge_point(mp, sol, x, ctx, m)
        # the implicit solution and the region found for this point
        s = q.solve(x)
        ctx.step()
        if m is None or m < -1e-5:
            need(s['min'] is None, 'QP solved at x=%r, where it is infeasible', x.tolist())
            continue
        if m < 1e-4:
            continue
        need(s['min'] is not None, 'QP not solved at x=%r (margin %g)', x.tolist(), m)
        u = s['argmin']
        v = mp.value(x, u)
        need(abs(v - s['min']) <= 1e-5 * (1 + abs(v)), 'minimum %r at x=%r, the minimiser costs %g', s['min'], x.tolist(), v)
        need(np.abs(u - sol.u(x)).max() <= 1e-4 * (1 + np.abs(u).max()), 'explicit %r and implicit %r minimisers differ at x=%r', sol.u(x).tolist(), u.tolist(), x.tolist())
        need(abs(sol.V(x) - s['min']) <= 1e-5 * (1 + abs(v)), 'explicit %r and implicit %r values differ at x=%r', sol.V(x), s['min'], x.tolist())


LAYERS = [Cases('mpc', gen_mpc, check_mpc, 'MPC problems of C21 with up to 3 (thorough 4) inputs, a few larger ones; centers of all enumerated critical regions plus a full parameter grid; options of the solver cycled', time_limit=400., nshards=128),
          Cases('mpqp', gen_mp, check_mp, 'all sets of 1..5 rows out of 7 (2 inputs / 1 parameter, 1 input / 2 parameters) x Hessians x linear and constant terms (thorough all, quick a third, every row set)', time_limit=120.),
          Cases('mpqp-shifted', gen_shifted, check_mp, 'the same programs with the parameter shifted by three vectors: the origin is feasible in some, infeasible in others', time_limit=120.)]


# -- one region at a time ------------------------------------------------------------------------------------------------------

class One(object):
    """A single critical region, in the role of the stored solution."""

    def __init__(self, cr):
        self.u, self.p, self.V = cr.u, cr.p, cr.V


def gen_regions(tier):
    for i, c in enumerate(gen_mp('quick')):
        if tier != 'quick' or i % 2 == 0:
            yield ['mp', c]
    for i, c in enumerate(gen_mpc('quick')):
        if tier != 'quick' or i % 8 == 0:
            yield ['mpc', c]


def check_regions(case, ctx):
    """The region of every active set, and the region found from every point with every guess out of a pool."""
    kind, c = case
    if kind == 'mp':
        mp = build(c)
        q = mp.real()
    else:
        ref, C, _, _ = c21.problem(c)
        mp, q = MP.from_ocp(ref), C.mpqp
    cs, count, complete = mp.region_centers(mp.nu, 300 if ctx.tier == 'quick' else 2000)
    ctx.state()
    for (x, r), act in zip(cs, mp.owners):
        ctx.state()
        guesses = [None, [], list(act), act[:-1], [i for i in range(len(mp.b)) if i not in act][:mp.nu]]
        cr = q.explicit_solve_given_active_set(list(act))
        ctx.step()
        need(cr is not None, 'no region for the active set %r, which is optimal around x=%r', act, x.tolist())
        need(bool(cr.contains(x)), 'the region of the active set %r does not contain the point %r of its interior', act, x.tolist())
        judge_point(mp, One(cr), x, ctx, force=True)
        ctx.outcome('active set')
        if len(act) > 1:
            # the same active set, listed in another order
            for other in (act[::-1], act[1:] + act[:1]):
                cr = q.explicit_solve_given_active_set(list(other))
                ctx.step()
                need(cr is not None and bool(cr.contains(x)), 'the region of the active set %r does not contain the point %r of its interior', other, x.tolist())
                judge_point(mp, One(cr), x, ctx, force=True)
        for g in guesses:
            cr = q.explicit_solve_given_point(x, None if g is None else list(g))
            ctx.step()
            need(cr is not None and bool(cr.contains(x)), 'no region found around x=%r with the guess %r', x.tolist(), g)
            judge_point(mp, One(cr), x, ctx, force=True)
            ctx.outcome('point')
        # just beyond the boundary of the region, with its active set as the guess
        cr = q.explicit_solve_given_active_set(list(act))
        for d in [s * v for v in np.eye(mp.nx) for s in (1., -1.)]:
            lo, hi = 0., 8.
            if bool(cr.contains(x + hi * d)):
                continue
            while hi - lo > 1e-9:
                t = .5 * (lo + hi)
                lo, hi = (t, hi) if bool(cr.contains(x + t * d)) else (lo, t)
            y = x + (hi + 2. ** -8) * d
            ctx.state()
            m = mp.margin(y)
            if m is None or m < 1e-4:
                continue
            c2 = q.explicit_solve_given_point(y, list(act))
            ctx.step()
            if c2 is None:
                ctx.skip('degenerate active set')
                continue
            judge_point(mp, One(c2), y, ctx, m)
            ctx.outcome('beyond')
    for k, x in enumerate(grid(mp.nx, 'quick')):
        if k % (11 if ctx.tier == 'quick' else 2):
            continue
        x = np.array(x)
        m = mp.margin(x)
        if m is None or m < -1e-4:
            for g in (None, [], [0]):
                ctx.state()
                cr = q.explicit_solve_given_point(x, g)
                ctx.step()
                need(cr is None, 'a region with the active set %r at x=%r, where the program is infeasible', getattr(cr, 'active_set', None), x.tolist())
                ctx.outcome('infeasible')


LAYERS.append(Cases('regions', gen_regions, check_regions, 'the critical region of every enumerated active set by itself (listed in increasing, decreasing and rotated order), and the region found from its center with no, the right and wrong guesses; None at every 11th (thorough: second) infeasible grid point', time_limit=200.))


# -- narrow regions ------------------------------------------------------------------------------------------------------------

def gen_narrow(tier):
    for e in (6, 8, 10) if tier == 'quick' else (4, 5, 6, 7, 8, 9, 10, 11):
        for slope in (.5, .25, -.5):
            for sh in (0, 1.5, -3):
                for k in range(4):
                    yield [e, slope, sh, k]


def check_narrow(case, ctx):
    """u follows x up to 1, then a line of another slope for 2**-e only, then stays constant (or follows a third line)."""
    e, slope, sh, k = case
    eps = 2. ** -e
    top = 1. + slope * eps
    Au, Ax, b = [[1.], [1.]], [[-slope], [0. if k % 2 == 0 else -.125]], [1. - slope, top + (0. if k % 2 == 0 else -.125 * (1. + eps))]
    Hxx, fx = [[2.]], [0.]
    if k >= 2:                      # a second parameter that moves both lines
        Ax = [[Ax[0][0], -1.], [Ax[1][0], -1.]]
        Hxx, fx = [[2., 0.], [0., 1.]], [0., 0.]
    nx = len(fx)
    box = [[1 if i == j else 0 for j in range(nx)] for i in range(nx)]
    for r in box:
        for sg in (1, -1):
            Au.append([0.])
            Ax.append([sg * t for t in r])
            b.append(4.)
    mp = MP([[1.]], [[-1.] + ([-1.] if k >= 2 else [])], Hxx, [0.], fx, 0., Au, Ax, b)
    if sh:
        mp = shifted(mp, [sh] + [0.] * (nx - 1))
    ctx.state()
    q = mp.real()
    for opt in ({}, {'step_size': 2. ** -14}):
        sol = q.explicit_solve(**opt)
        ctx.step()
        cs, count, complete = mp.region_centers(1, 200)
        try:
            for c, r in cs:
                judge_point(mp, sol, c, ctx, force=True)
            # across the narrow region
            for t in [1. + eps * j / 4. for j in range(-4, 9)]:
                for y in ([0.], [-1.5], [2.]) if k >= 2 else ([],):
                    judge_point(mp, sol, np.array([t + sh] + y), ctx)
        except NotApplicable:
            ctx.skip('facet-to-facet property does not hold')


LAYERS.append(Cases('narrow', gen_narrow, check_narrow, 'one input, one or two parameters: a critical region only 2**-e wide between two others (e up to 10, thorough 11), slopes and shifts'))


# -- the edge of the feasible set ------------------------------------------------------------------------------------------------

def gen_edge(tier):
    for i, c in enumerate(c21.gen_edge('quick')):
        s, N, d, t, w = c
        A, B = c21.SYSTEMS[s]
        if N * len(B[0]) <= (2 if tier == 'quick' else 3) and (tier != 'quick' or len(A) == 1 or i % 3 == 0):
            yield c


def check_edge(case, ctx):
    """The stored solution just inside and just outside every vertex and facet of the exact feasible set."""
    ref, C, nx, nu = c21.problem(case)
    pts = c21.edge_points(ref)
    if pts is None:
        ctx.skip('no bounded feasible set with interior')
        return
    mp = MP.from_ocp(ref)
    C.store_explicit_solution()
    ctx.step()
    try:
        for x in pts:
            x = np.array(x)
            ctx.state()
            stored = judge_point(mp, C.explicit_solution, x, ctx)
            u, V = C.feedforward_explicit(x)
            need((u is not None) == stored and (V is not None) == stored and (C.feedback_explicit(x) is not None) == stored, 'feedforward %r, %r at x=%r, stored solution: %r', u, V, x.tolist(), stored)
    except NotApplicable:
        ctx.skip('facet-to-facet property does not hold')


LAYERS.append(Cases('edge', gen_edge, check_edge, 'stored solutions of MPC problems with up to 2 (thorough 3) inputs, 2^-5..2^-13 of the way inside and outside every vertex and facet of the exact feasible set', time_limit=300.))


# -- many critical regions -----------------------------------------------------------------------------------------------------

def gen_many(tier):
    for n in (10, 8, 6, 4) if tier == 'quick' else (14, 12, 10, 8, 6, 4):
        for v in (0, 1) if n < 10 else (0,):
            yield [n, v]


def check_many(case, ctx):
    """Separable: every input is the saturation of a linear function of the parameters."""
    from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
    n, v = case
    k = np.arange(n)
    U = np.round(16 * np.column_stack((np.cos(1 + 2.4 * k + v), np.sin(1 + 2.4 * k + v)))) / 16
    hi = .5 + ((5 * k + v) % 7) / 8.
    lo = -.5 - ((3 * k + v) % 5) / 8.
    e, z = np.eye(n), np.zeros((4, n))
    H = {'uu': e, 'ux': -U, 'xx': np.eye(2) * 2 * n}
    A = {'u': np.vstack((e, -e, z)), 'x': np.vstack((np.zeros((2 * n, 2)), np.eye(2), -np.eye(2)))}
    b = np.concatenate((hi, -lo, np.ones(4) * 4.))
    mp = MultiParametricQuadraticProgram(H, {'u': np.zeros(n), 'x': np.zeros(2)}, 0., A, b)
    ctx.state()
    sol = mp.explicit_solve()
    ctx.step()
    ctx.outcome('%d regions' % len(sol.critical_regions))
    for x in itertools.product(np.linspace(-3.95, 3.95, 41 if n < 8 else 25), repeat=2):
        x = np.array(x)
        u = np.clip(U.dot(x), lo, hi)
        V = .5 * u.dot(u) - u.dot(U.dot(x)) + n * x.dot(x)
        g = sol.u(x)
        ctx.step()
        need(g is not None, 'no solution stored for the feasible parameter %r (%d regions)', x.tolist(), len(sol.critical_regions))
        need(np.abs(g - u).max() < 1e-5, 'u(%r) = %r, the minimiser is %r', x.tolist(), g.tolist(), u.tolist())
        need(abs(sol.V(x) - V) < 1e-5 * (1 + abs(V)), 'V(%r) = %r, the minimum is %r', x.tolist(), sol.V(x), V)
        lam = sol.p(x)
        need(lam.min() > -1e-5 and np.abs(u - U.dot(x) + lam[:n] - lam[n:2 * n]).max() < 1e-5, 'multipliers %r at %r', lam.tolist(), x.tolist())
    for x in ([4.01, 0.], [0., -4.01], [-5., 5.]):
        need(sol.u(np.array(x)) is None and sol.V(np.array(x)) is None, 'a solution is stored for the infeasible parameter %r', x)


LAYERS.append(Cases('many', gen_many, check_many, 'separable programs with 4..10 (thorough 14) inputs and two parameters, up to 185 (356) critical regions, 25 x 25 to 41 x 41 parameters', time_limit=400.))
