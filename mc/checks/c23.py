"""
C23: the feasible set of a parametric program, against the exact projection (double description over (x, u), then the
exact hull of the shadows of its vertices), and against the exact verdict "is there a u" on a grid of parameters.
"""
import itertools
import numpy as np
from ..core import Cases, need
from ..ref import Poly, extreme_points, hull_facets
from .. import poly, ocp
from . import c21, c13
from .c22 import MP


def judge(F, rows, nx, nu, ctx, xs, refresh):
    """F: reported feasible set; rows over (x, u)."""
    P = Poly.build(nx + nu, rows)
    need(not P.empty, 'harness: empty')
    ex = extreme_points([v[:nx] for v in P.vertices()])
    need(F.A.shape[1] == nx and F.C.shape[0] == 0, 'feasible set has A %s, C %s', F.A.shape, F.C.shape)
    poly.describes_hull(F.A, F.b, ex, 1.e-5, 'feasible set')
    c13.spanning(F.vertices, ex, list(range(nx)))
    fac, _ = hull_facets(ex)
    for x in xs:
        ctx.state()
        # signed distance to the exact boundary
        d = min(float(h[0] + sum(a * b for a, b in zip(h[1:], map(poly.Fraction, x)))) / float(sum(a * a for a in h[1:])) ** .5 for h in fac if any(h[1:]))
        ctx.step()
        if abs(d) < 1e-5:
            continue
        c = bool(F.contains(np.array(x, dtype=float)))
        need(c == (d > 0), 'x=%r: in the feasible set %r, distance inside the exact one %g', list(x), c, d)


def gen_mpc(tier):
    for c in c21.combos('thorough'):
        s, N, d, t, w = c
        A, B = c21.SYSTEMS[s]
        nx, nu = len(A), len(B[0])
        cap = {1: 6, 2: 6, 3: 5, 4: 6}[nx] + (tier == 'thorough')
        if d in ('tied', 'tied-only') or t in ('face', 'plane', 'point') or w not in ('unit',) or nx + N * nu > cap:
            continue
        yield list(c)


def check_mpc(case, ctx):
    ref, C, nx, nu = c21.problem(case)
    rows, eqs = ref.feasible_param_rows()
    n = nx + ref.N * nu
    P = Poly.build(n, rows)
    if P.empty or not P.bounded:
        ctx.outcome('empty' if P.empty else 'unbounded')
        try:
            C.mpqp.get_feasible_set()
        except ValueError:
            return
        need(False, 'feasible set returned for an empty or unbounded constraint set')
    if P.dim() < n:
        ctx.skip('constraint set without interior')
        return
    ctx.outcome('%d states, %d inputs' % (nx, n - nx))
    np.random.seed(sum(map(ord, str(case))))
    F = C.mpqp.get_feasible_set()
    ctx.step()
    g = {1: (-3.5, -3, -2.5, -2.0625, -2, -1.5, -1, -.5, 0, .25, .75, 1, 1.25, 1.75, 2, 2.4375, 2.5625, 3), 2: (-3, -2, -1.75, -1, -.375, 0, .5, 1.0625, 1.5, 2, 2.75)}.get(nx, (-2, -.75, 0, 1.125, 2))
    judge(F, rows, nx, n - nx, ctx, itertools.product(g, repeat=nx), True)
    # the same verdict as the controller itself
    for x in itertools.product((-2.25, -1, 0, .875, 2), repeat=nx):
        x = np.array(x, dtype=float)
        m = ocp.margin(ref.at(x)[0], [], n - nx)
        if abs(m) > 1e-4:
            ctx.step(2)
            need(bool(F.contains(x)) == (C.feedforward(x)[0] is not None), 'x=%r: in the feasible set %r, controller says %r', x.tolist(), bool(F.contains(x)), C.feedforward(x)[0])


ROWS = {(1, 1): [((1,), (0,), 1), ((-1,), (0,), 1), ((1,), (1,), 1), ((-1,), (1,), 2), ((0,), (1,), 1), ((0,), (-1,), 1.5), ((1,), (-2,), 1), ((-2,), (-1,), 1), ((0,), (0,), 1)],
        (2, 1): [((1, 0), (0,), 1), ((-1, 0), (0,), 1), ((0, 1), (1,), 1), ((0, -1), (.5,), 1.5), ((1, 1), (-1,), 1), ((-1, -1), (.25,), 2), ((0, 0), (1,), 3), ((0, 0), (-1,), 2)],
        (1, 3): [((0,), (1, 0, 0), 1), ((0,), (0, 1, 0), 1), ((1,), (0, 0, 1), 1), ((1,), (-1, 0, 0), 1), ((-1,), (0, -1, 0), 1.5), ((-1,), (0, 0, -1), 1), ((1,), (1, 1, 1), 2), ((-2,), (-1, 0, -1), 1)],
        (1, 2): [((1,), (0, 0), 1), ((-1,), (0, 0), 1), ((1,), (1, 0), 1), ((-2,), (0, 1), 1), ((1,), (-1, .5), 2), ((0,), (1, 1), 2), ((0,), (-1, 0), 2), ((0,), (0, -1), 1), ((-1,), (1, -1), 1)]}


def gen_mp(tier):
    for (nu, nx), rows in ROWS.items():
        for k in range(nu + nx + 1, nu + nx + 4 + (tier == 'thorough')):
            for sub in itertools.combinations(range(len(rows)), k):
                yield [nu, nx, list(sub), 0]
                if k < nu + nx + 3 and (nx < 3 or sum(sub) % 3 == 0):
                    # the same set moved away from the origin
                    yield [nu, nx, list(sub), 1]
                    yield [nu, nx, list(sub), 2]


def check_mp(case, ctx):
    nu, nx, sub, sh = case
    t = {0: (0, 0, 0), 1: (3, -4, 2.5), 2: (-2, -3.5, -5)}[sh][:nx]
    rows = [(u, x, b + sum(p * q for p, q in zip(x, t))) for u, x, b in (ROWS[nu, nx][i] for i in sub)]
    full = [(tuple(x) + tuple(u), b) for u, x, b in rows]
    P = Poly.build(nx + nu, full)
    ctx.state()
    mp = MP(np.eye(nu), np.zeros((nu, nx)), np.eye(nx), np.zeros(nu), np.zeros(nx), 0., [r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows])
    q = mp.real()
    ctx.step()
    if P.empty or not P.bounded:
        ctx.outcome('empty' if P.empty else 'unbounded')
        try:
            q.get_feasible_set()
        except ValueError:
            return
        need(False, 'feasible set returned for an empty or unbounded constraint set')
    if P.dim() < nx + nu:
        ctx.skip('constraint set without interior')
        return
    ctx.outcome('set')
    g = {1: (-3, -2, -1.5, -1, -.5, 0, .375, .5, 1, 1.5, 2, 3), 2: (-3, -1.5, -.75, 0, .5, 1, 2.25)}.get(nx, (-2, -.75, 0, .5, 1.25))
    np.random.seed(sum(sub))
    judge(q.get_feasible_set(), full, nx, nu, ctx, [tuple(a + b for a, b in zip(x, t)) for x in itertools.product(g, repeat=nx)] + ([(0.,) * nx] if sh else []), True)


LAYERS = [Cases('mpc', gen_mpc, check_mpc, 'condensed MPC problems with up to 6 (thorough 7) states plus inputs x all stage and terminal sets; full grids of states', time_limit=300.),
          Cases('mpqp', gen_mp, check_mp, 'all sets of n+1..n+3 (thorough n+4) rows out of 8..9 over (1,1), (2,1), (1,2), (1,3) inputs/parameters, around the origin and moved away from it')]


# -- one question after another --------------------------------------------------------------------------------------------------------

def gen_again(tier):
    ops = ['set', 'restrict', 'solve', 'other', 'cut', 'ask']
    for (nu, nx), sub in (((1, 1), (0, 1, 4, 5)), ((1, 1), (2, 3, 6, 7)), ((2, 1), (0, 1, 2, 3, 6, 7)), ((1, 2), (0, 1, 2, 3, 6, 7)), ((1, 2), (2, 3, 4, 5, 6, 7))):
        for seq in itertools.product(range(len(ops)), repeat=2 if tier == 'quick' else 3):
            yield [nu, nx, list(sub), [ops[i] for i in seq]]


def check_again(case, ctx):
    nu, nx, sub, ops = case
    rows = [ROWS[nu, nx][i] for i in sub]
    mk = lambda rows: MP(np.eye(nu), np.zeros((nu, nx)), np.eye(nx), np.zeros(nu), np.zeros(nx), 0., [r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows]).real()
    bx = [(tuple(0 for _ in range(nu)), tuple(s * int(i == j) for j in range(nx)), 2.) for i in range(nx) for s in (1, -1)] + [(tuple(s * int(i == j) for j in range(nu)), (0,) * nx, 2.) for i in range(nu) for s in (1, -1)]
    rows = rows + bx
    full = [(tuple(x) + tuple(u), b) for u, x, b in rows]
    q = mk(rows)
    # same shapes, same left-hand sides
    other = [(u, x, b * (1.5 if i % 2 else 1)) for i, (u, x, b) in enumerate(rows)]
    q2 = mk(other)
    ofull = [(tuple(x) + tuple(u), b) for u, x, b in other]
    ctx.state()
    np.random.seed(7)
    F = q.get_feasible_set()
    pts = list(itertools.product((-1.5, -.75, 0, .5, 1.25), repeat=nx))
    for op in ops:
        if op == 'restrict':
            F.add_upper_bound(np.zeros(nx))
        elif op == 'solve':
            for x in pts:
                q.solve(np.array(x))
        elif op == 'other':
            judge(q2.get_feasible_set(), ofull, nx, nu, ctx, pts[:3], True)
        elif op == 'cut':
            F.A *= 0.
            F.b -= 9.
        elif op == 'ask':
            G = q.get_feasible_set()
            G.vertices, G.radius, G.empty
            G.remove_redundant_inequalities()
        F = q.get_feasible_set()
        judge(F, full, nx, nu, ctx, pts, True)
        ctx.step()
    ctx.outcome('-'.join(ops))


LAYERS.append(Cases('again', gen_again, check_again, 'all sequences of 2 (thorough 3) of 6 steps (ask, restrict or overwrite the returned set, solve, ask a look-alike program) on 5 programs, the set judged after each'))


# -- inputs that count very little or very much ------------------------------------------------------------------------------------

def gen_weak(tier):
    for nu, nx in ((1, 1), (2, 1), (1, 2)):
        n = nx + nu
        for i, sub in enumerate(itertools.combinations(range(4), 2)):
            for k in (-13, -9, -5, 4, 8):
                for row in range(2):
                    for every in (0, 1):
                        yield [nu, nx, list(sub), k, row, every]


def check_weak(case, ctx):
    """A box around inputs and parameters, and two rows that couple them, the inputs of one or both scaled by 2^k."""
    nu, nx, sub, k, row, every = case
    cut = [((1, .5), (1, .5), 1), ((-1, 1), (1, -1), 1.25), ((-.5, -1), (-1, -.75), 1.5), ((1, -1), (-.5, 1), 1)]
    unit = lambda n, i, s: tuple(float(s * (i == j)) for j in range(n))
    rows = [(unit(nu, i, s), (0.,) * nx, 1.) for i in range(nu) for s in (1, -1)] + [((0.,) * nu, unit(nx, i, s), 3.) for i in range(nx) for s in (1, -1)]
    for j, c in enumerate(sub):
        u, x, b = cut[c]
        f = 2. ** k if every or j == row else 1.
        rows.insert(j * 3, (tuple(f * v for v in u[:nu]), tuple(map(float, x[:nx])), b if f <= 1 else b * f / 4.))
    full = [(tuple(x) + tuple(u), b) for u, x, b in rows]
    ctx.state()
    P = Poly.build(nx + nu, full)
    if P.empty or P.dim() < nx + nu:
        ctx.skip('constraint set without interior')
        return
    mp = MP(np.eye(nu), np.zeros((nu, nx)), np.eye(nx), np.zeros(nu), np.zeros(nx), 0., [r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows])
    np.random.seed(abs(k))
    F = mp.real().get_feasible_set()
    ctx.step()
    ctx.outcome('weak' if k < 0 else 'strong')
    g = (-3.0625, -2, -1.25, -.5, 0, .75, 1.0625, 1.5, 2.9375) if nx == 1 else (-2.5, -1, 0, .75, 1.5, 2.875)
    judge(F, full, nx, nu, ctx, itertools.product(g, repeat=nx), True)


LAYERS.append(Cases('weak', gen_weak, check_weak, 'boxes with two coupling rows whose input coefficients are scaled by 2^-13..2^8', time_limit=300.))
