"""
C21: implicit MPC.  For every problem and every state of a grid: the exact condensed constraint set (verdict by exact double
description, or by margin for long horizons), and the returned sequence certified optimal (feasible, cost as stated, and
minus the gradient in the cone of the tight constraints).
"""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Cases, need
from ..ref import Poly
from .. import poly, ocp
from .c01 import box


def e(n, i, s=1):
    return tuple(s * int(i == j) for j in range(n))


def bounds(lo, hi):
    n = len(lo)
    return [(e(n, i, -1), -lo[i]) for i in range(n)] + [(e(n, i), hi[i]) for i in range(n)]


def eye(n, s=1):
    return [[s * int(i == j) for j in range(n)] for i in range(n)]


SYSTEMS = {
    'scalar': ([[1.25]], [[1]]),
    'scalar-stable': ([[-.5]], [[2]]),
    'double': ([[1, 1], [0, 1]], [[.5], [1]]),
    'spiral': ([[.75, -.75], [.5, 1]], [[0], [1]]),
    'scalar-2u': ([[1]], [[1, .5]]),
    'coupled-2u': ([[1, .5], [-.25, 1]], [[1, 0], [.5, 1]]),
    'chain3': ([[1, 1, 0], [0, 1, 1], [0, 0, 1]], [[0], [0], [1]]),
    'chain3-2u': ([[1, .5, 0], [0, 1, .5], [.25, 0, .5]], [[1, 0], [0, 0], [0, 1]]),
    'chain4': ([[1, .5, 0, 0], [0, 1, .5, 0], [0, 0, 1, .5], [0, 0, 0, 1]], [[0], [0], [0], [1]]),
    'three-u': ([[1, .5], [0, 1]], [[1, 0, .5], [0, 1, -.5]]),
}


def domains(nx, nu):
    n = nx + nu
    out = {
        'box': (bounds([-2] * nx + [-1] * nu, [2] * nx + [1] * nu), []),
        'asym': (bounds([-3] + [-1.5] * (nx - 1) + [-.5] * nu, [2.5] + [1] * (nx - 1) + [1.25] * nu), []),
        'mixed': (bounds([-3] * nx + [-2] * nu, [3] * nx + [2] * nu) + [(tuple([1] * n), 2), (tuple([-1] * n), 1.5)], []),
        'inputs': ([(e(n, nx + i, s), 1) for i in range(nu) for s in (1, -1)], []),
        'redundant': (bounds([-2] * nx + [-1] * nu, [2] * nx + [1] * nu) + [(e(n, 0), 4), (e(n, 0, 2), 4), (tuple([0] * n), 1)], []),
    }
    # the origin is not admissible, and rows of very different scale
    out['away'] = (bounds([.5] * nx + [-1.5] * nu, [2.75] * nx + [1] * nu), [])
    out['scaled'] = ([(tuple(64 * v for v in a), 64 * t) if k % 3 == 0 else ((tuple(v / 32. for v in a), t / 32.) if k % 3 == 1 else (a, t)) for k, (a, t) in enumerate(bounds([-2.5] * nx + [-1] * nu, [2] * nx + [1.5] * nu))], [])
    if nu > 1:
        out['tied-only'] = ([], [(tuple([0] * nx + [1, -1] + [0] * (nu - 2)), .5)])
        out['tied'] = (bounds([-2] * nx + [-1] * nu, [2] * nx + [1] * nu), [(tuple([0] * nx + [1, -1] + [0] * (nu - 2)), 0)])
    return out


def terminals(nx):
    out = {
        'box': (bounds([-1] * nx, [1] * nx), []),
        'asym': (bounds([-.25] * nx, [1.5] * nx), []),
        'slab': ([(tuple([1] * nx), .5), (tuple([-1] * nx), .75)], []),
        'free': ([], []),
    }
    out['away'] = (bounds([.625] * nx, [2] * nx), [])
    if nx > 1:
        out['face'] = (bounds([-1] * nx, [1] * nx), [(e(nx, nx - 1), 0)])
        # equalities only
        out['plane'] = ([], [(tuple([1] * nx), .25)])
    out['point'] = ([], [(e(nx, i), [.125, 0, -.25, .5][i]) for i in range(nx)])
    return out


def costs(nx, nu):
    return {
        'unit': (eye(nx), eye(nu), eye(nx)),
        'zeroQ': (eye(nx, 0), eye(nu), eye(nx, 0)),
        'weights': ([[(2 * i + 1) * int(i == j) + (.5 if abs(i - j) == 1 else 0) for j in range(nx)] for i in range(nx)], [[(.25 + i) * int(i == j) + (.125 if i != j else 0) for j in range(nu)] for i in range(nu)], eye(nx, 10)),
        'big': (eye(nx, 512), eye(nu, 64), eye(nx, 2048)),
        'small': (eye(nx, 2. ** -8), eye(nu, 2. ** -10), eye(nx, 2. ** -9)),
        'terminal': (eye(nx, 0), eye(nu, .125), [[4 if i == j == 0 else int(i == j) for j in range(nx)] for i in range(nx)]),
    }


def combos(tier):
    """(system, N, domain, terminal, cost)"""
    for s, (A, B) in SYSTEMS.items():
        nx, nu = len(A), len(B[0])
        D, T, W = domains(nx, nu), terminals(nx), costs(nx, nu)
        cap = 5 if tier == 'quick' else 7
        for N in range(1, 6 if tier == 'quick' else 8):
            if N * nu > cap or (nx > 2 and N > (3 if tier == 'quick' else 4)):
                continue
            full = [(d, t, w) for d in D for t in T for w in W]
            if tier == 'quick' and N * nu > 2:
                # pairwise covering: every pair of choices occurs
                full = [(d, t, w) for i, d in enumerate(D) for j, t in enumerate(T) for k, w in enumerate(W) if (i + j + k) % 4 == N % 4]
            for d, t, w in full:
                yield s, N, d, t, w


def grid(nx, tier):
    if nx == 1:
        g = (-3, -2.25, -1, -.375, 0, .5, 1, 2, 2.5)
    elif nx == 2:
        g = (-2.5, -1, 0, .75, 2) if tier == 'quick' else (-3, -2, -1, -.25, 0, .75, 2, 2.5)
    else:
        g = (-1.5, 0, 1) if tier == 'quick' else (-2, -1, 0, .75, 1.5)
    return itertools.product(g, repeat=nx)


def gen(tier):
    for c in combos(tier):
        yield list(c)


_CACHE = {}


def problem(case, linear=True):
    """Reference OCP and the real controller."""
    key = str(case)
    if key not in _CACHE:
        _CACHE.clear()
        from pympc.control.controllers import ModelPredictiveController
        from pympc.dynamics.discrete_time_systems import LinearSystem
        s, N, d, t, w = case
        A, B = SYSTEMS[s]
        nx, nu = len(A), len(B[0])
        D, T, W = domains(nx, nu)[d], terminals(nx)[t], costs(nx, nu)[w]
        ref = ocp.OCP([(A, B, [0] * nx)], [D], [0] * N, W[0], W[1], W[2], T, nx, nu)
        f = lambda M: np.array(M, dtype=float)
        C = ModelPredictiveController(LinearSystem(f(A), f(B)), N, f(W[0]), f(W[1]), f(W[2]), poly.real(D[0], D[1], nx + nu), poly.real(T[0], T[1], nx))
        _CACHE[key] = (ref, C, nx, nu)
    return _CACHE[key]


def judge(ref, x0, u, V, ineqs, eqs, what='', tol=1e-5):
    """u: flat array. Certified optimal for the reference problem at x0."""
    n = len(u)
    sc = 1. + np.abs(u).max() + np.abs(x0).max()
    v = ocp.violation(ineqs, eqs, u, n)
    need(v <= tol * sc, '%sinput sequence %r violates the constraints by %g at x=%r', what, u.tolist(), v, list(x0))
    c = ref.cost(x0, u)
    need(V is not None and abs(c - V) <= tol * (1. + abs(c)), '%scost is reported as %r, the sequence %r costs %g at x=%r', what, V, u.tolist(), c, list(x0))
    g = ref.gradient(x0, u)
    gap = ocp.kkt_gap(g, ineqs, eqs, u, n)
    need(gap <= 1e-4 * (1. + np.abs(g).max()), '%ssequence %r is not optimal at x=%r (KKT residual %g)', what, u.tolist(), list(x0), gap)


def flat(useq, N, nu):
    need(len(useq) == N, '%d inputs for a horizon of %d', len(useq), N)
    for v in useq:
        need(np.shape(v) == (nu,), 'input of shape %s', np.shape(v))
    return np.concatenate([np.asarray(v, dtype=float) for v in useq])


def check(case, ctx, points=None):
    ref, C, nx, nu = problem(case)
    N = ref.N
    solved = refused = 0
    for x0 in points or grid(nx, ctx.tier):
        ctx.state()
        ineqs, eqs = ref.at(x0)
        m = ocp.margin(ineqs, eqs, N * nu)
        x = np.array(x0, dtype=float)
        u, V = C.feedforward(x)
        f = C.feedback(x)
        ctx.step(2)
        need((u is None) == (V is None) == (f is None), 'inconsistent verdicts: u %r, V %r, feedback %r', u, V, f)
        if u is None:
            if eqs and (m is None or m < 1e-3):
                ctx.skip('lower-dimensional or thin feasible set')
                continue
            if m is None or m < -1e-6:
                ctx.outcome('infeasible')
                continue
            if m < 1e-5:
                # exact verdict on the knife edge
                ctx.skip('feasible set without interior')
                continue
            if eqs:
                # sets without interior are at the mercy of roundoff: single refusals are skipped, systematic ones are not
                ctx.skip('lower-dimensional feasible set refused by the solver')
                refused += 1
                continue
            need(False, 'None at x=%r, but the problem is feasible with margin %g', list(x0), m)
        need(m is not None and m > -1e-5, 'inputs returned at x=%r, where the problem is infeasible (margin %r)', list(x0), m)
        ctx.outcome('optimal-eq' if eqs else 'optimal')
        solved += 1
        u = flat(u, N, nu)
        judge(ref, x0, u, V, ineqs, eqs)
        need(np.shape(f) == (nu,) and np.abs(f - u[:nu]).max() <= 1e-6 * (1 + np.abs(u).max()), 'feedback %r is not the first input %r', np.asarray(f).tolist(), u[:nu].tolist())
    need(refused <= solved, 'None at %d states where the problem is feasible (%d solved)', refused, solved)


def gen_exact(tier):
    """Small horizons: the verdict by exact double description."""
    for s, N, d, t, w in combos(tier):
        A, B = SYSTEMS[s]
        if N * len(B[0]) <= 3 and w in ('unit', 'weights') and d in ('box', 'mixed', 'asym') and t in ('box', 'slab', 'asym'):
            yield [s, N, d, t, w]


def check_exact(case, ctx):
    ref, C, nx, nu = problem(case)
    N = ref.N
    for x0 in grid(nx, ctx.tier):
        ctx.state()
        ineqs, eqs = ref.at(x0)
        p = Poly.build(N * nu, ineqs, eqs)
        u, V = C.feedforward(np.array(x0, dtype=float))
        ctx.step()
        if p.empty:
            need(u is None and V is None, 'inputs %r at x=%r, where no sequence is admissible', u, list(x0))
            ctx.outcome('infeasible')
        elif u is None:
            need(p.flat(), 'None at x=%r, where admissible sequences exist', list(x0))
            ctx.skip('feasible set without interior')
        else:
            ctx.outcome('optimal')
            uf = flat(u, N, nu)
            g = ref.gradient(x0, uf)
            vi = p.vi(g.tolist(), uf.tolist())
            need(vi <= 1e-4 * (1 + np.abs(uf).max()) * (1 + np.abs(g).max()), 'sequence %r is not optimal at x=%r (an admissible direction improves the cost at rate %g)', uf.tolist(), list(x0), vi)
            judge(ref, x0, uf, V, ineqs, eqs)


def gen_long(tier):
    for s, N, d, t, w in [('double', 10, 'box', 'box', 'unit'), ('double', 8, 'mixed', 'slab', 'weights'), ('scalar', 12, 'asym', 'box', 'unit'), ('spiral', 8, 'asym', 'asym', 'weights'), ('coupled-2u', 5, 'mixed', 'box', 'unit'), ('chain3', 7, 'box', 'box', 'terminal'),
                          ('chain3-2u', 4, 'asym', 'slab', 'weights'), ('chain4', 6, 'box', 'box', 'unit'), ('three-u', 4, 'mixed', 'asym', 'weights'), ('scalar-2u', 6, 'redundant', 'box', 'weights'), ('double', 15, 'inputs', 'free', 'unit')]:
        yield [s, N, d, t, w]


LAYERS = [Cases('mpc', gen, check, '10 systems (1..4 states, 1..3 inputs) x horizons with up to 5 (thorough 7) inputs x 7..9 stage sets (one without the origin, one with badly scaled rows, one of equalities only) x 6..8 terminal sets (two of equalities only) x 6 costs (pairwise covering in quick) x full state grids'),
          Cases('exact-verdict', gen_exact, check_exact, 'horizons with up to 3 inputs: feasibility and optimality by exact double description'),
          Cases('long', gen_long, check, 'horizons 4..15', time_limit=300.)]


def gen_nearby(tier):
    for s, N, d, t, w in [('scalar', 1, 'box', 'box', 'unit'), ('scalar', 3, 'asym', 'asym', 'weights'), ('double', 2, 'box', 'box', 'unit'), ('double', 3, 'mixed', 'asym', 'weights'), ('spiral', 2, 'asym', 'slab', 'unit'), ('coupled-2u', 2, 'box', 'box', 'weights'), ('chain3', 3, 'box', 'slab', 'unit'), ('scalar-stable', 2, 'inputs', 'free', 'big')]:
        nx = len(SYSTEMS[s][0])
        for base in itertools.product((-2, .75, 2.5) if nx == 1 else (-1, .75), repeat=nx):
            for delta in (2. ** -3, 2. ** -7, 2. ** -10):
                for way in range(nx + 1 if nx > 1 else 1):
                    yield [[s, N, d, t, w], list(base), delta, way]


def check_nearby(case, ctx):
    """A walk in small steps, on one controller: every state has its own answer."""
    c, base, delta, way = case
    nx = len(base)
    step = [1 if way == nx or i == way else 0 for i in range(nx)]
    path = [[b + k * delta * v for b, v in zip(base, step)] for k in (0, 1, 2, -1, 4, 3, -3, 0)]
    check(c, ctx, path)


LAYERS.append(Cases('nearby', gen_nearby, check_nearby, 'walks in steps of 1/8, 1/128 and 1/1024 along each axis and the diagonal around grid states, all on one controller'))


def gen_edge(tier):
    for c in combos('thorough'):
        s, N, d, t, w = c
        A, B = SYSTEMS[s]
        nx, nu = len(A), len(B[0])
        if d in ('tied', 'tied-only', 'inputs') or t in ('face', 'plane', 'point') or w not in ('unit', 'weights') or nx > 2 or nx + N * nu > (5 if tier == 'quick' else 6):
            continue
        if tier == 'quick' and N > 1 and (len(d) + len(t) + len(w)) % 2:
            continue
        yield list(c)


def edge_points(ref, ks=(5, 8, 11, 13)):
    """States just inside and just outside the exact feasible set: across every facet and every vertex; None if it is not bounded or flat."""
    from ..ref import extreme_points, hull_facets
    nx, nu = ref.nx, ref.nu
    rows, eqs = ref.feasible_param_rows()
    P = Poly.build(nx + ref.N * nu, rows, eqs)
    if P.empty or not P.bounded or P.dim() < nx + ref.N * nu - len(eqs):
        return None
    ex = extreme_points([v[:nx] for v in P.vertices()])
    mid = [sum(v[i] for v in ex) / len(ex) for i in range(nx)]
    at = [list(v) for v in ex]
    if nx > 1:
        for h in hull_facets(ex)[0]:
            if any(h[1:]):
                on = [v for v in ex if h[0] + sum(a * b for a, b in zip(h[1:], v)) == 0]
                at.append([sum(v[i] for v in on) / len(on) for i in range(nx)])
    return [[float(a + s * Fraction(1, 2 ** k) * (b - a)) for a, b in zip(v, mid)] for v in at for k in ks for s in (1, -1)]


def check_edge(case, ctx):
    ref, C, nx, nu = problem(case)
    pts = edge_points(ref)
    if pts is None:
        ctx.skip('no bounded feasible set with interior')
        return
    check(case, ctx, pts)


LAYERS.append(Cases('edge', gen_edge, check_edge, 'states 2^-5..2^-13 of the way inside and outside every vertex and every facet of the exact feasible set', time_limit=300.))
