"""
C20: maximal constraint-admissible invariant sets.  Reference: the exact intersection of the constraints on x(0), x(1), ...
over the rationals, stopped when the next step is implied (Gilbert and Tan), compared as a set with the returned one.
"""
import contextlib
import io
import itertools
from fractions import Fraction
import numpy as np
from ..core import Cases, need
from ..ref import Poly, dot, frac, matmul
from .. import ngon, poly
from .c01 import box

SLACK = Fraction(1, 10 ** 6)


def exact_invariant(A, ineqs, n, limit=120):
    """Inequalities of O_inf, or None if not determined within the limit."""
    rows = [(list(map(Fraction, a)), Fraction(b)) for a, b in ineqs]
    out = list(rows)
    p = Poly.build(n, out)
    A = [[Fraction(v) for v in r] for r in A]
    cur = [a for a, _ in rows]
    for t in range(limit):
        cur = matmul(cur, A)
        done = True
        for a, (_, b) in zip(cur, rows):
            if not p.included_in_ineq(a, b):
                done = False
        if done:
            return out, p
        for a, (_, b) in zip(cur, rows):
            if not p.included_in_ineq(a, b):
                out.append((a, b))
                p = p.add(a, b)
    return None


def sets(n):
    if n == 1:
        return [box(1, -1, 1), box(1, -1, 3), box(1, -.25, .5), box(1, -1, 2) + [((2,), 3), ((0,), 1)], [((-4,), 1), ((.5,), 1)]]
    if n == 2:
        return [box(2, -1, 1),
                [((1, 0), 2), ((-1, 0), .5), ((0, 1), 1), ((0, -1), 3)],
                [((1, 1), 1), ((1, -1), 1), ((-1, 1), 1), ((-1, -1), 1)],
                [((-1, 0), 1), ((0, -1), 1), ((1, 1), 1)],
                box(2, -1, 1) + [((1, 1), 1), ((1, 1), 1), ((1, 0), 5), ((0, 0), 1)],
                [((2, 1), 1), ((-2, -1), 1), ((0, 3), 1), ((0, -1), 2), ((1, 1), 4)],
                [((.125, 0), 1), ((-.125, 0), 1), ((0, 16), 1), ((0, -16), 1)],
                [((1, 0), 1), ((-1, 0), 1), ((0, 1), 1), ((0, -1), 1), ((1, 2), 2), ((-1, -2), 2), ((2, -1), 2), ((-2, 1), 2)]]
    b = box(n, -1, 1)
    return [b, [((1,) * n, 1)] + [(tuple(-int(i == j) for j in range(n)), 1) for i in range(n)], b + [((1, -1) + (0,) * (n - 2), .5), ((0,) * (n - 1) + (1,), .75)],
            box(n, -2, 1)]


def mats(tier):
    for a in (-.75, -.5, -.25, 0., .25, .5, .75, .875):
        yield [[a]]
    v = (-.75, -.5, 0., .5, .75, 1.) if tier == 'quick' else (-1., -.75, -.625, -.5, -.25, 0., .25, .5, .75, .875, 1.)
    for e in itertools.product(v, repeat=4):
        yield [list(e[:2]), list(e[2:])]
    for a, b in ((.5, 1.), (.5, 2.), (.75, -1.), (-.5, 4.), (.25, -8.), (.875, .5)):
        yield [[a, b], [0., a]]
        yield [[a, 0.], [b, -a]]
        yield [[0., 1.], [-a * a, a]]
    for a in (.5, .75, .875):
        yield [[a * .75, -a * .5], [a * .5, a * .75]]
        yield [[0., -a], [a, 0.]]
    for a, b in ((.875, .25), (.875, -.125), (.75, .5), (.90625, .0625), (.8125, -.375)):     # slowly decaying spirals
        yield [[a, -b], [b, a]]
        yield [[a, -4 * b], [b / 4, a]]
    for n in (3, 4):
        for a, b in ((.5, .5), (.5, 1.), (-.5, .25), (.25, -1.)):
            yield [[a * (i == j) + b * (j == i + 1) for j in range(n)] for i in range(n)]
            yield [[a * (j == (i + 1) % n) + b * .5 * (i == j == 0) for j in range(n)] for i in range(n)]


def slow(tier):
    """Lightly damped rotations: many steps until the constraints of the next step are implied."""
    for a, b in ((31. / 32, 1. / 16), (63. / 64, 1. / 32), (127. / 128, 1. / 32)) + (((127. / 128, 1. / 64),) if tier == 'thorough' else ()):
        yield [[a, -b], [b, a]]
        yield [[a, -b / 2], [2 * b, a]]


def gen_slow(tier):
    for A in slow(tier):
        for k in (0, 1, 3, 4):
            yield [A, k]


def rho(A):
    return np.abs(np.linalg.eigvals(np.array(A, dtype=float))).max()


def gen(tier):
    for A in mats(tier):
        if rho(A) > .93:
            continue
        for k in range(len(sets(len(A)))):
            yield [A, k]


def same(O, A, ineqs, n, ctx, what):
    ref = exact_invariant(A, ineqs, n)
    if ref is None:
        ctx.skip('not determined within 120 steps')
        return
    out, p = ref
    ctx.outcome('steps%d' % min(9, (len(out) - 1) // max(1, len(ineqs))))
    need(O.C.shape[0] == 0, '%s: equalities appeared', what)
    poly.same_set(O, out, [], p, SLACK, what)
    # minimal: no inequality can be dropped
    ri, _ = poly.rows_of(O)
    need(len(ri) <= len(out), '%s has %d inequalities, %d are enough', what, len(ri), len(out))


def check(case, ctx):
    from pympc.dynamics.discrete_time_systems import mcais
    A, k = case
    n = len(A)
    ineqs = sets(n)[k]
    ctx.state()
    X = poly.real(ineqs, [], n)
    keep = [X.A.copy(), X.b.copy()]
    Af = np.array(A, dtype=float)
    O = mcais(Af, X)
    ctx.step()
    need(np.array_equal(X.A, keep[0]) and np.array_equal(X.b, keep[1]), 'the constraint set was modified')
    need(np.array_equal(Af, np.array(A)), 'the dynamics were modified')
    same(O, A, ineqs, n, ctx, 'invariant set')
    if k == 0:
        # after queries on X, and with the messages on
        X.radius, X.vertices
        with contextlib.redirect_stdout(io.StringIO()):
            O2 = mcais(Af, X, verbose=True)
        same(O2, A, ineqs, n, ctx, 'invariant set (verbose)')
        ctx.step()


# -- through the feedback ---------------------------------------------------------------------------------------------------

def gen_loop(tier):
    systems = [([[1, 1], [0, 1]], [[0], [1]], [[[-.25, -.75]], [[-.5, -1.25]], [[-.125, -.5]], 'lqr']),
               ([[1, .5], [0, 1]], [[0], [.5]], [[[-.5, -1.]], 'lqr']),
               ([[1.25]], [[1]], [[[-.5]], [[-1.25]], [[-2]], 'lqr']),
               ([[0, 1], [1, 1]], [[1, 0], [0, 1]], [[[0, -.5], [-1, -.5]], [[.5, -1], [-1, -1.25]], 'lqr']),
               ([[1, 1, 0], [0, 1, 1], [0, 0, 1]], [[0], [0], [1]], ['lqr']),
               ([[.5, 1], [0, .75]], [[1], [0]], [[[0, 0]], [[0, -1]]])]
    for i, (A, B, Ks) in enumerate(systems):
        for j, K in enumerate(Ks):
            for d in range(5):
                yield [A, B, K, d]


def domain(nx, nu, d):
    n = nx + nu
    e = lambda i, s: tuple(s * int(i == j) for j in range(n))
    if d == 0:
        return box(n, -1, 1)
    if d == 1:
        return [(e(i, 1), 4 + i) for i in range(nx)] + [(e(i, -1), 3) for i in range(nx)] + [(e(nx + i, 1), 1) for i in range(nu)] + [(e(nx + i, -1), .5) for i in range(nu)]
    if d == 2:   # constraints that mix state and input
        return box(n, -2, 2) + [(tuple([1] * n), 1), (tuple([-1] * n), 1.5)]
    if d == 3:   # the domain itself is unbounded in u, bounded in closed loop
        return [(e(i, s), 2) for i in range(nx) for s in (1, -1)]
    return box(n, -1, 3) + [(e(0, 1) , .25), (e(n - 1, -2), 1)]


def check_loop(case, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem
    A, B, K, d = case
    nx, nu = len(A), len(B[0])
    S = LinearSystem(np.array(A, dtype=float), np.array(B, dtype=float))
    ineqs = domain(nx, nu, d)
    ctx.state()
    Kf = S.solve_dare(np.eye(nx), np.eye(nu))[1] if K == 'lqr' else np.array(K, dtype=float)
    Ke = frac(Kf)
    Acl = [[p + q for p, q in zip(r, s)] for r, s in zip([[Fraction(v) for v in r] for r in A], matmul([[Fraction(v) for v in r] for r in B], Ke))]
    Xcl = [([Fraction(v) + w for v, w in zip(a[:nx], matmul([[Fraction(v) for v in a[nx:]]], Ke)[0])], b) for a, b in ineqs]
    D = poly.real(ineqs, [], nx + nu)
    O = S.mcais(Kf, D)
    ctx.step()
    same(O, Acl, Xcl, nx, ctx, 'invariant set of the closed loop')


# -- refusals ---------------------------------------------------------------------------------------------------------------

def gen_bad(tier):
    for kind, A, ineqs in [('unstable', [[1.5]], box(1, -1, 1)), ('unstable', [[.5, 0], [0, -1.25]], box(2, -1, 1)), ('unstable', [[1, 1], [-1, 1]], box(2, -1, 1)), ('unstable', [[0, 2], [1, 0]], box(2, -1, 1)),
                           ('unstable', [[.5, 0, 0], [0, 0, -1.125], [0, 1, 0]], box(3, -1, 1)), ('unstable', [[1.0078125, 0], [4, .5]], box(2, -1, 1)),
                           ('origin', [[.5]], box(1, 1, 2)), ('origin', [[.5, .25], [0, .5]], [((1, 0), -.25), ((-1, 0), 1), ((0, 1), 1), ((0, -1), 1)]), ('origin', [[.5, 0], [0, .5]], box(2, -1, 1) + [((-1, -1), -.0625)]),
                           ('origin', [[.5, 0], [0, .5]], box(2, -1, 1) + [((1, 1), -2. ** -12)]),
                           ('origin', [[.5]], [((1,), -2. ** -15), ((-1,), 1)]), ('origin', [[.5]], [((1,), -2. ** -18), ((-1,), 1)]), ('origin', [[0.]], [((-1,), -2. ** -15), ((1,), 1)]),
                           ('origin', [[.5, 0], [0, .5]], box(2, -1, 1) + [((-1, 1), -2. ** -16)]), ('origin', [[.5, 0, 0], [0, .5, 0], [0, 0, .5]], box(3, -1, 1) + [((0, 0, 1), -2. ** -15)]),
                           ('unstable', [[1 + 2. ** -10]], box(1, -1, 1)), ('unstable', [[-1 - 2. ** -10]], box(1, -1, 1)), ('unstable', [[.5, 0], [0, 1 + 2. ** -12]], box(2, -1, 1)),
                           ('unbounded', [[.5]], [((1,), 1)]), ('unbounded', [[.5, 0], [0, .5]], [((1, 0), 1), ((-1, 0), 1), ((0, 1), 1)]), ('unbounded', [[.5, 1], [0, .5]], [((1, 1), 1), ((-1, -1), 1)]),
                           ('unbounded', [[0, 0], [0, 0]], [((1, 0), 1), ((0, 1), 1)]), ('unbounded', [[.5, 0, 0], [0, .5, 0], [0, 0, .5]], [((1, 0, 0), 1), ((-1, 0, 0), 1), ((0, 1, 1), 1), ((0, -1, -1), 1)])]:
        yield [kind, A, ineqs]


def check_bad(case, ctx):
    from pympc.dynamics.discrete_time_systems import mcais
    kind, A, ineqs = case
    X = poly.real(ineqs, [], len(A))
    ctx.state()
    ctx.step()
    ctx.outcome(kind)
    try:
        O = mcais(np.array(A, dtype=float), X)
    except ValueError:
        return
    need(False, 'no ValueError (%s): returned A=%r b=%r', kind, O.A.tolist(), O.b.tolist())


LAYERS = [Cases('mcais', gen, check, 'all 2x2 dynamics over 6 (thorough 11) dyadic values with spectral radius <= 0.93, 1d, Jordan blocks, rotations, 3d/4d chains and cycles x 8 (5, 4) constraint sets; exact invariant set', time_limit=60.),
          Cases('slow', gen_slow, check, 'lightly damped rotations (spectral radius up to 0.995), up to more than 50 steps', time_limit=300.),
          Cases('closed-loop', gen_loop, check_loop, '6 systems x given and LQR gains x 5 domains (mixed state-input constraints)'),
          Cases('refused', gen_bad, check_bad, 'unstable / origin outside / unbounded')]



# -- one set after another ------------------------------------------------------------------------------------------------------------

LOOPS = [([[1.25]], [[1]], [[[-.5]], [[-1.25]], [[-1.75]]]),
         ([[1, 1], [0, 1]], [[0], [1]], [[[-.25, -.75]], [[-.5, -1.25]]]),
         ([[0, 1], [1, 1]], [[1, 0], [0, 1]], [[[0, -.5], [-1, -.5]], [[.5, -1], [-1, -1.25]]])]


def doms(nx, nu):
    """Domains that share the left-hand sides, or the right-hand sides."""
    n = nx + nu
    b = box(n, -1, 1)
    return [b, [(a, t * 2) for a, t in b], [(a, t * (1 + .5 * (i % 2))) for i, (a, t) in enumerate(b)], box(n, -2, 1), b[::-1], b + [(tuple([1] * n), 1)], b + [(tuple([-1] * n), 1)], domain(nx, nu, 2)]


def gen_again(tier):
    for k, (A, B, Ks) in enumerate(LOOPS):
        p = [(i, d) for i in range(len(Ks)) for d in range(8)]
        for a in p:
            for b in p:
                if a[0] == b[0] or a[1] == b[1] or tier == 'thorough':
                    yield ['loop', k, list(a), list(b)]
    M = [[[.5, .25], [0, .5]], [[.5, 0], [.25, .5]], [[.5, -.25], [0, .5]], [[0, .5], [-.5, 0]], [[0, -.5], [.5, 0]], [[.75, 0], [0, .25]], [[.25, 0], [0, .75]], [[.5, 1], [0, .5]]]
    for i, a in enumerate(M):
        for j, b in enumerate(M):
            for s, t in ((1, 1), (1, 3), (3, 1), (5, 7)):
                yield ['map', [a, s], [b, t], (i + j) % 2]


def check_again(case, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem, mcais
    ctx.state()
    ctx.outcome(case[0])
    if case[0] == 'map':
        _, p, q, same_arrays = case
        arr = np.zeros((2, 2))
        for A, k in (p, q, p):
            Af = np.array(A, dtype=float)
            if same_arrays:
                arr[...] = Af
                Af = arr
            O = mcais(Af, poly.real(sets(2)[k], [], 2))
            same(O, A, sets(2)[k], 2, ctx, 'invariant set')
            O.add_upper_bound(np.zeros(2))      # the caller's copy
            ctx.step()
        return
    _, k, a, b = case
    A, B, Ks = LOOPS[k]
    nx, nu = len(A), len(B[0])
    S = LinearSystem(np.array(A, dtype=float), np.array(B, dtype=float))
    D = [poly.real(d, [], nx + nu) for d in doms(nx, nu)]
    Kf = np.zeros((nu, nx))
    for i, d in (a, b, a):
        Kf[...] = np.array(Ks[i], dtype=float)
        Ke = frac(Kf)
        Acl = [[p + q for p, q in zip(r, s)] for r, s in zip([[Fraction(v) for v in r] for r in A], matmul([[Fraction(v) for v in r] for r in B], Ke))]
        Xcl = [([Fraction(v) + w for v, w in zip(r[:nx], matmul([[Fraction(v) for v in r[nx:]]], Ke)[0])], t) for r, t in doms(nx, nu)[d]]
        O = S.mcais(Kf, D[d])
        same(O, Acl, Xcl, nx, ctx, 'invariant set of the closed loop (gain %d, domain %d)' % (i, d))
        O.add_upper_bound(np.zeros(nx))
        ctx.step()


LAYERS.append(Cases('again', gen_again, check_again, 'ordered pairs (i, j, i again) of gains and domains on one system, and of look-alike dynamics and sets; arrays overwritten, results restricted in between', time_limit=60.))


def KNOWN():
    """Findings recorded in KNOWN_FINDINGS.md that still fail on this tree."""
    from pympc.dynamics.discrete_time_systems import mcais
    X = poly.real(box(2, -1, 1), [((1, -1), 0)], 2)
    out = []
    try:
        A = np.diag([.5, .25])
        O = mcais(A, X)
        x = np.array([.5, .5])
        if O.contains(x) and not O.contains(A.dot(x)):
            out.append('KNOWN-FINDING: property=C20 mcais(A=diag(.5,.25), X={|x|<=1, x1=x2}): equalities of X are ignored, the returned set is not invariant ([.5,.5] is in it, its successor is not)')
    except Exception:
        pass
    return out


# -- dynamics that do not contract, with finitely many steps -------------------------------------------------------------------

def gen_marginal(tier):
    """Diagonal dynamics and boxes only: the programs solved on the way have exact answers, so roundoff cannot decide."""
    for A in ([[1.]], [[-1.]]):
        for k in (0, 1):
            yield [A, k]
    for d in itertools.product((1., -1., .5), repeat=2):
        if max(map(abs, d)) == 1:
            for k in (0, 1):
                yield [[[d[0], 0.], [0., d[1]]], k]
    yield [[[1., 0., 0.], [0., -1., 0.], [0., 0., .5]], 0]


LAYERS.append(Cases('marginal', gen_marginal, check, 'diagonal dynamics with eigenvalues 1, -1 and 1/2 and boxes: marginally stable, yet finitely many steps'))


# -- facets that are cut by very little -------------------------------------------------------------------------------------------

def gen_fine(tier):
    """The image of a corner of the box leaves it, or stays inside, by 2^-k only."""
    for k in (6, 10, 13, 15) if tier == 'quick' else (4, 6, 8, 10, 12, 13, 14, 15, 16):
        for s in (1, -1):
            e = s * 2. ** -k
            for A in ([[.5, .5 + e], [0., .5]], [[.25, -.75 - e], [.5, .25]], [[.5, 0.], [.625 + e, -.375]], [[0., 1. + e], [-.5, 0.]], [[-.5, .5], [.5 + e, .5 + e]]):
                if rho(A) < .93:
                    yield [A, 0]
                    yield [A, 7]
            yield [[[.5, .25, .25 + e], [0., .5, .5 + e], [0., 0., .5]], 0]


LAYERS.append(Cases('fine', gen_fine, check, 'dynamics that move a corner of the constraint set out of it, or not quite, by 2^-6..2^-15'))


def gen_polygon(tier):
    for m in (2, 3) if tier == 'quick' else (2, 3, 4):
        for k in (1, 7):
            for j in range(4):
                yield [m, k, j]


def check_polygon(case, ctx):
    """Constraint sets with many facets."""
    from pympc.dynamics.discrete_time_systems import mcais
    m, k, j = case
    rows, V = ngon.polygon(m)
    rows = [rows[i] for i in ngon.shuffle(rows, k)]
    A = [[[.5, 0.], [0., .5]], [[.5, .75], [0., .5]], [[.25, .875], [-.625, .25]], [[.5, 2.], [0., .75]]][j]
    ctx.state()
    O = mcais(np.array(A), ngon.real(rows))
    ctx.step()
    same(O, A, rows, 2, ctx, 'set of %d facets' % len(rows))


LAYERS.append(Cases('polygon', gen_polygon, check_polygon, 'lattice polygons with 16..32 (thorough 48) edges as constraint sets, four dynamics', time_limit=120.))
