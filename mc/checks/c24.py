"""
C24: hybrid MPC.  For every problem and every state of a grid, every mode sequence is enumerated: exact feasibility (double
description) and the certified minimum of its program; the controller must return the best of them, with a trajectory that
is consistent with the dynamics, the domains and the terminal set, and None exactly when every sequence is infeasible.
"""
import itertools
import numpy as np
from ..core import Cases, need
from ..ref import Poly, dot
from .. import poly, ocp, qp
from . import c21
from .c18 import half

b2 = lambda lo, hi: c21.bounds(lo, hi)


def systems():
    """name -> (nx, nu, [(A, B, c)], [(ineqs, eqs)])"""
    out = {}
    u1 = lambda n, i: [half(n, i, 1, 1), half(n, i, -1, 1)]
    d1 = [(b2([-2, -1], [0, 1]), []), (b2([0, -1], [2, 1]), [])]
    m1 = [([[1]], [[1]], [1]), ([[-.5]], [[1]], [-.25])]
    out['split'] = (1, 1, m1, d1)
    out['split-reversed'] = (1, 1, m1[::-1], d1[::-1])
    # domains of very different sizes and offsets (every big-M constant is different)
    out['sizes'] = (1, 1, [([[2]], [[.5]], [3]), ([[-1]], [[1]], [-.5]), ([[.5]], [[-2]], [-4])],
                    [(b2([-8, -1], [-1, .5]), []), (b2([-1, -.5], [.5, 2]), []), (b2([.5, -3], [2, 1]), [])])
    # a gap, and input ranges of their own
    out['gap'] = (1, 1, [([[1]], [[.5]], [0]), ([[.5]], [[-1]], [.25]), ([[-1]], [[1]], [0])],
                  [(b2([-2, -1], [-.5, 1]), []), (b2([.5, 0], [1, 1]), []), (b2([1, -2], [2, .5]), [])])
    # overlapping domains: the controller picks the better mode
    out['overlap'] = (1, 1, [([[.5]], [[1]], [1]), ([[1]], [[.25]], [-1]), ([[2]], [[-1]], [0])],
                      [(b2([-2, -1], [1, 1]), []), (b2([-1, -1], [2, 1]), []), ([((1, 1), 1), ((-1, -1), 1), ((1, -1), 2), ((-1, 1), 2)], [])])
    # guards mixing state and input, redundant rows
    out['diagonal'] = (1, 1, [([[1]], [[1]], [.5]), ([[-1]], [[.5]], [.25])],
                       [([((1, 1), 0)] + b2([-2, -2], [2, 2]) + [((1, 0), 5)], []), ([((-1, -1), 0)] + b2([-2, -2], [2, 2]), [])])
    # domains restricted by equalities
    out['equalities'] = (1, 1, [([[1]], [[1]], [.5]), ([[-1]], [[1]], [0]), ([[0]], [[1]], [1])],
                         [(b2([-2, -1], [0, 1]), [((0, 1), 0)]), (b2([0, -1], [2, 2]), [((1, 1), 1)]), (b2([-2, -1], [2, 1]), [((1, -2), 0)])])
    out['single'] = (1, 1, [([[1.5]], [[1]], [.25])], [(b2([-2, -1], [2, 1]), [])])
    out['two-inputs'] = (1, 2, [([[1]], [[1, 0]], [0]), ([[.5]], [[0, 1]], [-.5]), ([[-1]], [[1, -1]], [1])],
                         [([((1, 1, 0), -.5)] + b2([-3, -1, -1], [3, 1, 1]), []), ([((1, 0, 1), 1), ((-1, -1, 0), .5)] + b2([-3, -1, -1], [3, 1, 1]), []),
                          ([((-1, 0, -1), -1), ((-1, -1, 0), .5)] + b2([-3, -1, -1], [3, 1, 1]), [])])
    # two states
    quad, dyn = [], []
    for k, (s, t) in enumerate(itertools.product((1, -1), repeat=2)):
        quad.append(([half(3, 0, s, 0), half(3, 1, t, 0), half(3, 0, -s, 2), half(3, 1, -t, 2), half(3, 2, 1, 1), half(3, 2, -1, 1)], []))
        dyn.append(([[[0, 1], [-1, 0]], [[.5, 0], [.5, -1]], [[0, -1], [1, .5]], [[1, .5], [0, 1]]][k], [[[1], [0]], [[0], [1]], [[1], [-1]], [[.5], [.5]]][k], [[0, 0], [.25, 0], [0, -.25], [-.5, .5]][k]))
    out['quadrants'] = (2, 1, dyn, quad)
    # a body that hits a wall
    out['wall'] = (2, 1, [([[1, .5], [.25, 1]], [[0], [1]], [0, 0]), ([[1, .5], [-2, .5]], [[0], [1]], [0, 2])],
                   [(b2([-2, -2, -2], [1, 2, 2]), []), (b2([1, -2, -2], [1.5, 2, 2]), [])])
    # two states, one domain confined to a line
    out['line'] = (2, 1, [([[1, 1], [0, 1]], [[.5], [1]], [0, 0]), ([[.5, 0], [0, .5]], [[0], [0]], [.25, 0])],
                   [(b2([-2, -2, -1], [2, 2, 1]), []), (b2([-2, -2, -1], [2, 2, 1]), [((1, -1, 0), 0), ((0, 0, 1), 0)])])
    # three states, two inputs
    out['three-states'] = (3, 2, [([[1, 1, 0], [0, 1, .5], [0, 0, .5]], [[0, 0], [1, 0], [0, 1]], [0, .25, 0]), ([[.5, 0, 0], [1, .5, 0], [0, -1, 1]], [[1, 0], [0, 0], [.5, -1]], [-.25, 0, .5])],
                           [(b2([-2, -2, -2, -1, -1], [0, 2, 2, 1, 2]), []), (b2([0, -2, -1, -2, -1], [2, 2, 2, 1, 1]), [])])
    # five modes side by side, one input range each
    out['five'] = (1, 1, [([[.5 * (k + 1)]], [[(-1) ** k]], [.5 * (2 - k)]) for k in range(5)], [(b2([k - 2.5, -1 + .125 * k], [k - 1.5, .5 + .25 * k]), []) for k in range(5)])
    # many narrow modes
    out['seven'] = (1, 1, [([[[1, -.5, .25][k % 3]]], [[(1, -1, .5)[k % 3]]], [.25 * (k - 3)]) for k in range(7)], [(b2([.5 * k - 2, -1 + .125 * (k % 3)], [.5 * k - 1.5, 1 - .125 * (k % 4)]), []) for k in (3, 0, 5, 1, 6, 2, 4)])
    out['ten'] = (1, 1, [([[[.5, -1, 1][k % 3]]], [[(1, .5, -1)[k % 3]]], [.125 * (5 - k)]) for k in range(10)], [(b2([.5 * k - 2.5, -1], [.5 * k - 2, 1 - .0625 * k]), []) for k in range(10)])
    cells = list(itertools.product((-1.5, -.5, .5), repeat=2))
    out['nine'] = (2, 1, [([[.5, (k % 3 - 1) * .5], [(k // 3 - 1) * .5, .5]], [[1 - k % 2], [k % 2]], [.125 * (k % 4), -.125 * (k % 5)]) for k in range(9)], [(b2([i, j, -1], [i + 1, j + 1, .5 + .125 * (k % 4)]), []) for k, (i, j) in enumerate(cells)])
    # the same systems, hundreds of units wide (offsets, domains, states and terminal sets scaled)
    for name in ('split', 'sizes', 'diagonal', 'two-inputs', 'quadrants', 'equalities'):
        nx, nu, modes, doms = out[name]
        for k in (2. ** -5, 2. ** 9):
            out['%s*%g' % (name, k)] = (nx, nu, [(A, B, [k * v for v in c]) for A, B, c in modes], [([(a, k * b) for a, b in i], [(a, k * b) for a, b in e]) for i, e in doms])
    return out


SYS = systems()


def scale(name):
    return float(name.split('*')[1]) if '*' in name else 1.


def scaled(T, k):
    return tuple([(a, k * b) for a, b in rows] for rows in T)


def terminals(nx):
    out = {'box': (c21.bounds([-1] * nx, [1] * nx), []), 'asym': (c21.bounds([-.5] * nx, [1.5] * nx), []), 'free': ([], []),
           'slab': ([(tuple([1] * nx), 1), (tuple([-1] * nx), .25)], [])}
    out['line'] = (c21.bounds([-1] * nx, [1] * nx), [(tuple([1] * nx), .5)])
    # equalities only
    out['point'] = ([], [(c21.e(nx, i), [.25, 0, -.125][i]) for i in range(nx)])
    return out


def combos(tier):
    for s, (nx, nu, modes, doms) in SYS.items():
        T, W = terminals(nx), c21.costs(nx, nu)
        for N in range(1, 5 if tier == 'quick' else 6):
            if len(modes) ** N > (30 if tier == 'quick' else 90) or N * nu > 4 + (tier == 'thorough'):
                continue
            for i, t in enumerate(T):
                for j, w in enumerate(W):
                    if w == 'zeroQ' and t == 'free':
                        continue
                    if scale(s) != 1 and (N > 2 or (tier == 'quick' and (i + j) % 3)):
                        continue
                    if nx > 2 and (i + j) % 3 and tier == 'quick':
                        continue
                    if tier == 'quick' and N > 1 and (i + j + N) % (2 if len(modes) ** N < 10 else 4):
                        continue
                    yield [s, N, t, w]


_CACHE = {}


def problem(case):
    key = str(case)
    if key not in _CACHE:
        _CACHE.clear()
        from pympc.control.controllers import HybridModelPredictiveController
        from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem
        s, N, t, w = case
        nx, nu, modes, doms = SYS[s]
        T, W = scaled(terminals(nx)[t], scale(s)), c21.costs(nx, nu)[w]
        f = lambda M: np.array(M, dtype=float)
        S = PieceWiseAffineSystem([AffineSystem(f(A), f(B), f(c)) for A, B, c in modes], [poly.real(i, e, nx + nu) for i, e in doms])
        C = HybridModelPredictiveController(S, N, f(W[0]), f(W[1]), f(W[2]), poly.real(T[0], T[1], nx))
        refs = {seq: ocp.OCP(modes, doms, seq, W[0], W[1], W[2], T, nx, nu) for seq in itertools.product(range(len(modes)), repeat=N)}
        _CACHE[key] = (refs, C, nx, nu, modes, doms, T, W)
    return _CACHE[key]


def best(refs, x0, nx, nu, N):
    """(value, {sequence: value}, largest margin over the infeasible sequences)"""
    vals, near = {}, -1.
    bad = set()
    for seq, o in refs.items():
        ineqs, eqs = o.at(x0)
        P = Poly.build(N * nu, ineqs, eqs)
        if P.empty:
            m = ocp.margin(ineqs + eqs + [([-v for v in a], -b) for a, b in eqs], [], N * nu)
            near = max(near, m)
            continue
        H, g = o.H[nx:-1, nx:-1], o.gradient(x0, np.zeros(N * nu))
        u, v = qp.solve(H, g, ineqs, eqs, P)
        vals[seq] = (o.cost(x0, u), u)
    return vals, near


def grid(nx, tier, k=1.):
    if k != 1:
        return [tuple(k * v for v in x) for x in grid(nx, tier)]
    if nx == 1:
        return [(v,) for v in (-3.5, -2.25, -2, -1.5, -1, -.625, -.25, 0, .25, .5, .75, 1.125, 2, 2.5)]
    if nx == 3 and tier == 'quick':
        return list(itertools.product((-1., .5), (-.75, 0, 1.), (-.5, .25)))
    g = (-1.5, -.5, 0, .75) if tier == 'quick' else (-1.75, -1, -.5, 0, .25, .75, 1.25)
    return list(itertools.product(g, repeat=nx))


def off(rows, eqs, z):
    return max([0.] + [float(dot(a, z) - float(b)) for a, b in rows] + [abs(float(dot(c, z) - float(d))) for c, d in eqs])


def check(case, ctx, points=None):
    refs, C, nx, nu, modes, doms, T, W = problem(case)
    N, k = case[1], scale(case[0])
    one = max(1., k)
    for x0 in points or grid(nx, ctx.tier, k):
        ctx.state(len(refs))
        vals, near = best(refs, x0, nx, nu, N)
        x = np.array(x0, dtype=float)
        u, xs, ms, V = C.feedforward(x)
        f = C.feedback(x)
        ctx.step(2)
        need((u is None) == (xs is None) == (ms is None) == (V is None), 'inconsistent verdict at %r: %r', list(x0), (u, xs, ms, V))
        need(np.array_equal(x, np.array(x0, dtype=float)), 'state argument modified')
        if u is None:
            need(not vals, 'None at x=%r, but the mode sequences %r are feasible', list(x0), list(vals))
            need(f is None, 'feedback %r where feedforward is None', f)
            ctx.outcome('infeasible')
            continue
        if not vals:
            need(near > -1e-4 * one, 'inputs returned at x=%r, where every mode sequence is infeasible', list(x0))
            ctx.skip('infeasible by less than the tolerance')
            continue
        ctx.outcome('optimal, %d of %d sequences feasible' % (len(vals), len(refs)) if len(refs) < 10 else 'optimal')
        uf = c21.flat(u, N, nu)
        ms = [int(m) for m in ms]
        need(len(ms) == N and len(xs) == N + 1 and all(0 <= m < len(modes) for m in ms), '%d modes %r, %d states for horizon %d', len(ms), ms, len(xs), N)
        need(all(np.shape(v) == (nx,) for v in xs) and np.array_equal(xs[0], x), 'trajectory %r does not start at %r', [np.asarray(v).tolist() for v in xs], list(x0))
        cost = 0.
        for t, m in enumerate(ms):
            A, B, c = (np.array(M, dtype=float) for M in modes[m])
            nxt = A.dot(xs[t]) + B.dot(u[t]) + c
            need(np.abs(nxt - xs[t + 1]).max() <= 1e-4 * (one + np.abs(nxt).max()), 'x=%r: state %d is %r, mode %d gives %r', list(x0), t + 1, np.asarray(xs[t + 1]).tolist(), m, nxt.tolist())
            z = list(xs[t]) + list(u[t])
            v = off(doms[m][0], doms[m][1], z)
            need(v <= 1e-4 * one, 'x=%r: (x,u)=%r at step %d is not in the domain of mode %d (by %g)', list(x0), [float(a) for a in z], t, m, v)
            cost += xs[t].dot(np.array(W[0], dtype=float)).dot(xs[t]) + u[t].dot(np.array(W[1], dtype=float)).dot(u[t])
        cost = .5 * (cost + xs[N].dot(np.array(W[2], dtype=float)).dot(xs[N]))
        v = off(T[0], T[1], list(xs[N]))
        need(v <= 1e-4 * one, 'x=%r: final state %r is not in the terminal set (by %g)', list(x0), list(xs[N]), v)
        need(abs(cost - V) <= 1e-3 * (1 + abs(cost)), 'x=%r: cost reported %g, the trajectory costs %g', list(x0), V, cost)
        vmin = min(v for v, _ in vals.values())
        need(abs(V - vmin) <= 2e-3 * (1 + abs(vmin)), 'x=%r: cost %g with modes %r, the minimum over all mode sequences is %g with %r', list(x0), V, ms, vmin, min(vals, key=lambda q: vals[q][0]))
        need(np.shape(f) == (nu,), 'feedback %r', f)
        if np.abs(f - uf[:nu]).max() > 1e-3 * (1 + np.abs(uf).max()):
            # several optima: the feedback must be the first input of one of them
            ok = False
            for seq, (v, w) in vals.items():
                ok = ok or (v <= vmin + 4e-3 * (1 + abs(vmin)) and np.abs(w[:nu] - f).max() <= 5e-2 * (1 + np.abs(w).max()))
            need(ok, 'x=%r: feedback %r is not the first input of an optimal sequence (feedforward starts with %r)', list(x0), f.tolist(), uf[:nu].tolist())
            ctx.outcome('several optima')


def check_fixed(case, ctx):
    """The program of every mode sequence, at every state of the grid."""
    refs, C, nx, nu, modes, doms, T, W = problem(case)
    N = case[1]
    if N > 1 and case[3] == 'unit':
        # a sequence may be shorter or longer than the horizon of the controller
        extra = [tuple(k % len(modes) for k in range(N + 1)), (len(modes) - 1,)]
        refs = dict(refs)
        for seq in extra:
            refs[seq] = ocp.OCP(modes, doms, seq, W[0], W[1], W[2], T, nx, nu)
    for seq, o in refs.items():
        n = o.N * nu
        q = C.get_mpqp(list(seq))
        ctx.step()
        solved = refused = 0
        for x0 in grid(nx, 'quick', scale(case[0])):
            ctx.state()
            ineqs, eqs = o.at(x0)
            m = ocp.margin(ineqs, eqs, n)
            s = q.solve(np.array(x0, dtype=float))
            ctx.step()
            if s['min'] is None:
                if m is None or m < 1e-5:
                    ctx.outcome('infeasible')
                elif eqs:
                    ctx.skip('lower-dimensional feasible set refused by the solver')
                    refused += 1
                else:
                    need(False, 'modes %r: no solution at x=%r, margin %g', list(seq), list(x0), m)
                continue
            need(m is not None and m > -1e-5, 'modes %r: solution at x=%r, where the program is infeasible', list(seq), list(x0))
            solved += 1
            ctx.outcome('optimal')
            c21.judge(o, x0, np.asarray(s['argmin'], dtype=float), s['min'], ineqs, eqs, what='modes %r: ' % (list(seq),))
        need(refused <= solved + 1, 'modes %r: no solution at %d states where the program is feasible (%d solved)', list(seq), refused, solved)


def gen_fixed(tier):
    for s, N, t, w in combos(tier):
        if w in ('unit', 'weights') and t in ('box', 'slab', 'line', 'point') and (tier != 'quick' or N < 4):
            yield [s, N, t, w]


LAYERS = [Cases('best-sequence', combos, check, '15 PWA systems (1..10 modes; gaps, overlaps, equalities, mixed guards) x horizons with up to 30 (thorough 90) mode sequences x 6 terminal sets (one a point given by equalities only) x 4 costs (pairwise covering in quick) x state grids; every mode sequence enumerated', time_limit=600., nshards=256),
          Cases('fixed-sequence', gen_fixed, check_fixed, 'every mode sequence of these problems (also other lengths than the horizon) x state grids', time_limit=600.)]


def gen_edge(tier):
    for s, N, t, w in combos('thorough'):
        nx, nu, modes, doms = SYS[s]
        if nx > 1 or w not in ('unit', 'weights') or N > 2 or t in ('free', 'line', 'point') or scale(s) != 1 or len(modes) ** N > 10 or s == 'equalities':
            continue
        if tier == 'quick' and (len(s) + N + len(t) + len(w)) % 2:
            continue
        yield [s, N, t, w]


def check_edge(case, ctx):
    """One state: just inside and just outside the ends of the interval of feasible states of every mode sequence."""
    refs = problem(case)[0]
    pts = set()
    for o in refs.values():
        for x in c21.edge_points(o, (9, 11)) or []:
            pts.add(tuple(x))
    if not pts:
        ctx.skip('no mode sequence is feasible')
        return
    check(case, ctx, sorted(pts))


LAYERS.append(Cases('edge', gen_edge, check_edge, 'one-state systems, horizons 1..2: states 2^-9 and 2^-11 of the way inside and outside the ends of the exact feasible interval of every mode sequence', time_limit=600.))
