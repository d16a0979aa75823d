"""
C25: closed loops.  Terminal cost and gain by solve_dare, terminal set by mcais, MPC on top, and the closed loop run from every
feasible state of a grid; at every step: feasible again (judged with the margin of the exact condensed problem), stage
constraints met, optimal cost decreased at least by the stage cost.  The relations between horizons that follow from the same
ingredients (feasible sets grow with the horizon, cost does not) are judged on the same grid.
"""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Cases, need
from .. import poly, ocp
from . import c21

SYSTEMS = dict(c21.SYSTEMS)
SYSTEMS.update({
    'unstable-2': ([[1.5, .25], [0, 1.25]], [[0], [1]]),
    'rotation': ([[0, 1.125], [-1.125, 0]], [[0], [1]]),
    'marginal': ([[1, .25], [0, 1]], [[.03125], [.25]]),
})
DOMS = ('box', 'asym', 'mixed', 'redundant')
HORIZONS = {1: (1, 2, 3, 5), 2: (1, 2, 4), 3: (1, 3), 4: (2,)}


def weights(nx, nu):
    return {'unit': (c21.eye(nx), c21.eye(nu)), 'cheap': (c21.eye(nx), c21.eye(nu, .0625)), 'expensive': (c21.eye(nx, .25), c21.eye(nu, 8)),
            'coupled': (c21.costs(nx, nu)['weights'][0], c21.costs(nx, nu)['weights'][1])}


def gen(tier):
    for s, (A, B) in SYSTEMS.items():
        nx, nu = len(A), len(B[0])
        if s == 'scalar-2u':
            pass
        for N in HORIZONS[nx] + ((4, 6) if tier == 'thorough' and nx < 3 else ()):
            for i, d in enumerate(DOMS):
                for j, w in enumerate(weights(nx, nu)):
                    if tier == 'quick' and (nx > 2 or N > 2) and (i + j + N) % 2:
                        continue
                    yield [s, N, d, w]


def ingredients(case):
    from pympc.control.controllers import ModelPredictiveController
    from pympc.dynamics.discrete_time_systems import LinearSystem
    s, N, d, w = case
    A, B = SYSTEMS[s]
    nx, nu = len(A), len(B[0])
    ineqs, eqs = c21.domains(nx, nu)[d]
    Q, R = weights(nx, nu)[w]
    f = lambda M: np.array(M, dtype=float)
    S = LinearSystem(f(A), f(B))
    P, K = S.solve_dare(f(Q), f(R))
    D = poly.real(ineqs, eqs, nx + nu)
    X = S.mcais(K, D)
    make = lambda n: ModelPredictiveController(S, n, f(Q), f(R), P, D, X)
    rows = [(tuple(Fraction(v) for v in a), Fraction(b)) for a, b in zip(X.A.tolist(), X.b.tolist())]
    ref = lambda n: ocp.OCP([(A, B, [0] * nx)], [(ineqs, eqs)], [0] * n, Q, R, P.tolist(), (rows, []), nx, nu)
    return S, P, K, X, make, ref, f(Q), f(R), nx, nu, ineqs


def grid(nx, tier):
    if nx == 1:
        g = (-3, -2.5, -2, -1.5, -1, -.375, 0, .25, .75, 1.25, 2, 2.5)
    elif nx == 2:
        g = (-2, -1.25, -.5, 0, .75, 1.5, 2) if tier == 'quick' else (-3, -2, -1.5, -1.25, -.75, -.5, 0, .25, .75, 1.125, 1.5, 2, 2.5)
    else:
        g = (-1, 0, .75) if tier == 'quick' else (-1.5, -.75, 0, .5, 1)
    return itertools.product(g, repeat=nx)


def check(case, ctx):
    S, P, K, X, make, ref, Q, R, nx, nu, ineqs = ingredients(case)
    N = case[1]
    C, o = make(N), ref(N)
    C1 = make(N + 1)
    T = 8 if ctx.tier == 'quick' else 20
    for x0 in grid(nx, ctx.tier):
        x = np.array(x0, dtype=float)
        u, V = C.feedforward(x)
        ctx.state()
        ctx.step()
        if u is None:
            ctx.outcome('infeasible start')
            continue
        ctx.outcome('closed loop')
        # the longer horizon does not lose states or cost
        u1, V1 = C1.feedforward(x)
        m = ocp.margin(o.at(x.tolist())[0], [], N * nu)
        ctx.step()
        if u1 is None:
            need(m < 1e-5, 'x=%r is feasible with horizon %d (margin %g), infeasible with %d', list(x0), N, m, N + 1)
        else:
            need(V1 <= V + 1e-5 * (1 + abs(V)), 'x=%r: cost %g with horizon %d, %g with %d', list(x0), V, N, V1, N + 1)
        # inside the terminal set the controller is the LQR
        if np.all(X.A.dot(x) <= X.b - 1e-6 * np.linalg.norm(X.A, axis=1)):
            lqr = .5 * x.dot(P).dot(x)
            need(abs(V - lqr) <= 1e-5 * (1 + lqr), 'x=%r is in the terminal set, cost %g instead of %g', list(x0), V, lqr)
            need(np.abs(u[0] - K.dot(x)).max() <= 1e-4 * (1 + np.abs(x).max()), 'x=%r is in the terminal set, input %r instead of %r', list(x0), u[0].tolist(), K.dot(x).tolist())
            ctx.outcome('LQR region')
        for t in range(T):
            ctx.state()
            z = np.concatenate((x, u[0]))
            for a, b in ineqs:
                need(np.dot(a, z) <= float(b) + 1e-5, 'step %d from %r: (x,u)=%r violates %r <= %r', t, list(x0), z.tolist(), a, b)
            stage = .5 * (x.dot(Q).dot(x) + u[0].dot(R).dot(u[0]))
            y = S.simulate(x, [u[0]])[-1]
            need(np.abs(y - (np.array(SYSTEMS[case[0]][0], dtype=float).dot(x) + np.array(SYSTEMS[case[0]][1], dtype=float).dot(u[0]))).max() <= 1e-9 * (1 + np.abs(y).max()), 'simulation')
            un, Vn = C.feedforward(y)
            ctx.step(2)
            if un is None:
                m = ocp.margin(o.at(y.tolist())[0], [], N * nu)
                need(m > -1e-5, 'step %d from %r leads to %r, which is infeasible (margin %g): not recursively feasible', t, list(x0), y.tolist(), m)
                need(m < 1e-5, 'None at %r, where the problem is feasible with margin %g', y.tolist(), m)
                ctx.skip('closed loop on the boundary of the feasible set (solver tolerance)')
                break
            if Vn > V - stage + 1e-5 * (1 + abs(V)) and ocp.margin(o.at(y.tolist())[0], [], N * nu) < 1e-6:
                # exactly on the boundary of the feasible set: a coefficient of 1e-17 decides what is feasible
                ctx.skip('closed loop on the boundary of the feasible set (roundoff in the rows)')
                break
            need(Vn <= V - stage + 1e-5 * (1 + abs(V)), 'step %d from %r: cost %g -> %g, stage cost %g', t, list(x0), V, Vn, stage)
            x, u, V = y, un, Vn
            if V < 1e-9:
                break


def gen_explicit(tier):
    for s, N in (('scalar', 3), ('double', 2), ('double', 3), ('spiral', 2), ('scalar-2u', 2), ('unstable-2', 2), ('rotation', 3), ('chain3', 2)):
        for d in DOMS:
            for w in ('unit', 'expensive') if tier == 'quick' else ('unit', 'cheap', 'expensive', 'coupled'):
                yield [s, N, d, w]


def check_explicit(case, ctx):
    """The same loop closed with the explicit controller: same inputs at every step."""
    S, P, K, X, make, ref, Q, R, nx, nu, ineqs = ingredients(case)
    C, o = make(case[1]), ref(case[1])
    C.store_explicit_solution()
    for x0 in grid(nx, ctx.tier):
        x = np.array(x0, dtype=float)
        for t in range(6):
            ctx.state()
            m = ocp.margin(o.at(x.tolist())[0], [], case[1] * nu)
            f, e = C.feedback(x), C.feedback_explicit(x)
            ctx.step(2)
            if m is None or m < 1e-4:
                if m is None or m < -1e-5:
                    need(f is None and e is None, 'inputs %r / %r (explicit) at x=%r, infeasible with margin %r', f, e, x.tolist(), m)
                break
            need(f is not None and e is not None, 'no input (implicit %r, explicit %r) at x=%r, feasible with margin %g', f, e, x.tolist(), m)
            need(np.abs(f - e).max() <= 1e-4 * (1 + np.abs(f).max()), 'step %d: explicit %r and implicit %r inputs differ at x=%r', t, e.tolist(), f.tolist(), x.tolist())
            ctx.outcome('agree')
            x = S.simulate(x, [e])[-1]


LAYERS = [Cases('closed-loop', gen, check, '13 systems (1..4 states, 1..3 inputs) x horizons 1..5 x 4 stage sets x 4 costs (half of the combinations of the larger ones in quick) x grids of initial states x 8 (thorough 20) steps', time_limit=600., nshards=256),
          Cases('explicit-loop', gen_explicit, check_explicit, '8 systems x 4 stage sets x 2 (thorough 4) costs x grids x 6 steps, closed with the explicit controller', time_limit=600.)]
