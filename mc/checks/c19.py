"""
C19: LQR.  Over all small integer dynamics: controllability against the exact rank of the Krylov matrix; the Riccati
solution by certificate (symmetric, residual zero, positive definite, closed loop stable: these four properties single out
the optimal solution), and the cost actually attained by the returned gain, summed along the closed loop.
"""
import itertools
from fractions import Fraction
import numpy as np
import scipy.linalg
from ..core import Cases, need
from ..ref import matmul, rank


def krylov(A, B):
    n = len(A)
    cols, M = [], [list(r) for r in B]
    for _ in range(n):
        cols.append(M)
        M = matmul(A, M)
    return [sum((c[i] for c in cols), []) for i in range(n)]


def T(M):
    return [list(r) for r in zip(*M)]


def dynamics(tier):
    """(A, B) integer matrices."""
    for a in (-2, -1, 0, 1, 2, 3):
        for b in ([[0]], [[1]], [[-2]], [[1, 2]], [[0, 0]]):
            yield [[a]], b
    va = (-1, 0, 1, 2)
    Bs = [[[1], [0]], [[0], [1]], [[1], [-1]], [[0], [0]], [[1, 0], [0, 1]], [[1, 2], [2, 4]], [[0, 1], [0, 1]]]
    for e in itertools.product(va, repeat=4):
        for B in Bs:
            yield [list(e[:2]), list(e[2:])], B
    v3 = (0, 1) if tier == 'quick' else (-1, 0, 1)
    for e in itertools.product(v3, repeat=9):
        A = [list(e[:3]), list(e[3:6]), list(e[6:])]
        for B in ([[0], [0], [1]], [[1], [0], [-1]], [[1, 0], [0, 0], [0, 1]]):
            yield A, B
    # integrator chains, companion, block and decoupled systems in higher dimension
    for n in (3, 4, 5, 6):
        chain = [[int(i == j) + int(j == i + 1) for j in range(n)] for i in range(n)]
        comp = [[int(j == i + 1) for j in range(n)] for i in range(n - 1)] + [[(-1) ** k for k in range(n)]]
        diag = [[(i % 3 - 1) * int(i == j) for j in range(n)] for i in range(n)]
        rot = [[int((i + 1) % n == j) for j in range(n)] for i in range(n)]
        for A in (chain, comp, diag, rot, T(chain)):
            for B in ([[int(i == n - 1)] for i in range(n)], [[int(i == 0)] for i in range(n)], [[int(i == 0), int(i == n - 1)] for i in range(n)], [[int(i == j) for j in range(n)] for i in range(n)], [[1] for i in range(n)], [[int(i == 1), 1, int(i == n - 1)] for i in range(n)]):
                yield A, B


def costs(n, m, tier):
    """(Q, R) as integer matrices plus a scale."""
    I = [[int(i == j) for j in range(n)] for i in range(n)]
    D = [[(i + 1) * int(i == j) for j in range(n)] for i in range(n)]
    full = [[(2 if i == j else (1 if abs(i - j) == 1 else 0)) for j in range(n)] for i in range(n)]
    c0 = [[int(i == 0 and j == 0) for j in range(n)] for i in range(n)]
    ones = [[1 for _ in range(n)] for _ in range(n)]
    Rs = [[[int(i == j) for j in range(m)] for i in range(m)], [[(3 if i == j else 1) for j in range(m)] for i in range(m)]]
    out = [(I, Rs[0], 1., 1.), (D, Rs[-1], 1., .125), (full, Rs[0], 1., 16.), (c0, Rs[0], 1., 1.), (ones, Rs[-1], 4., 1.)]
    return out if tier == 'thorough' or n > 2 else out[1:4]


def gen(tier):
    for A, B in dynamics(tier):
        n, m = len(A), len(B[0])
        ctrb = rank(krylov(A, B)) == n
        if not ctrb:
            yield [A, B, None]
            continue
        for Q, R, q, r in costs(n, m, tier):
            if rank(T(krylov(T(A), T(Q)))) == n:     # observable through Q
                yield [A, B, [Q, R, q, r]]
                if n > 2 or (sum(map(sum, A)) + sum(map(sum, B))) % 5 == 0:
                    yield [[[.5 * v for v in row] for row in A], B, [Q, R, q, r]]
                    yield [A, [[2. ** -5 * v for v in row] for row in B], [Q, R, q, r]]


def judge(P, K, Af, Bf, Q, R):
    n, m = Bf.shape
    P, K = np.asarray(P), np.asarray(K)
    need(P.shape == (n, n) and K.shape == (m, n), 'shapes %s, %s', P.shape, K.shape)
    sc = np.abs(P).max()
    G = R + Bf.T.dot(P).dot(Bf)
    gs = np.abs(G).max()
    need(np.abs(P - P.T).max() <= 1e-7 * (1 + sc), 'P is not symmetric')
    need(np.linalg.eigvalsh(.5 * (P + P.T)).min() > 0., 'P is not positive definite')
    Acl = Af + Bf.dot(K)
    rho = np.abs(np.linalg.eigvals(Acl)).max()
    need(rho < 1., 'the closed loop has spectral radius %g', rho)
    need(np.abs(G.dot(K) + Bf.T.dot(P).dot(Af)).max() <= 1e-6 * (gs + sc * (1 + np.abs(Af).max())), 'the gain is not the minimiser of the cost-to-go')
    res = Q + K.T.dot(R).dot(K) + Acl.T.dot(P).dot(Acl) - P
    need(np.abs(res).max() <= 1e-6 * (1 + sc), 'Riccati residual %g (P of size %g)', np.abs(res).max(), sc)
    return rho, sc, P, K


def check(case, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem
    A, B, cost = case
    n, m = len(A), len(B[0])
    Af, Bf = np.array(A, dtype=float), np.array(B, dtype=float)
    ctx.state()
    if cost is None:
        ctx.outcome('uncontrollable')
        for first in ('query', 'solve'):
            S = LinearSystem(Af, Bf)
            if first == 'query':
                need(not S.controllable, 'uncontrollable pair reported as controllable')
                need(not S.controllable, 'uncontrollable pair reported as controllable (second time)')
            try:
                S.solve_dare(np.eye(n), np.eye(m))
            except ValueError:
                pass
            else:
                need(False, 'no ValueError from the Riccati equation of an uncontrollable pair')
            need(not S.controllable, 'uncontrollable pair reported as controllable (after the refusal)')
            ctx.step(3)
        return
    Q, R, q, r = cost
    Q, R = q * np.array(Q, dtype=float), r * np.array(R, dtype=float)
    S = LinearSystem(Af, Bf)
    if (n + m) % 2:
        need(S.controllable, 'controllable pair reported as uncontrollable')
    try:
        P, K = S.solve_dare(Q, R)
    except (ValueError, np.linalg.LinAlgError):
        try:
            scipy.linalg.solve_discrete_are(Af, Bf, Q, R)
        except (ValueError, np.linalg.LinAlgError):
            ctx.skip('too ill-conditioned for the Riccati solver')
            return
        raise
    need(S.controllable, 'controllable pair reported as uncontrollable')
    ctx.step(3)
    ctx.outcome('lqr-%d' % n)
    rho, sc, P, K = judge(P, K, Af, Bf, Q, R)
    # cost attained along the closed loop = 1/2 x0' P x0
    if rho < .97:
        N = min(400, int(np.ceil(np.log(1e-9) / np.log(max(rho, .05)))) + 4 * n)
        for k in range(n):
            x0 = np.eye(n)[k]
            x = S.simulate_closed_loop(x0, N, K)
            c = sum(v.dot(Q).dot(v) + v.dot(K.T).dot(R).dot(K).dot(v) for v in x)
            need(abs(c - P[k, k]) <= 1e-5 * (1 + sc), 'cost %g along the closed loop from unit vector %d, P says %g', c, k, P[k, k])
            ctx.step()


def gen_opt(tier):
    """Grid of competing inputs: no first input does better than the gain."""
    n = 0
    for A, B, cost in gen(tier):
        if cost is not None and len(A) <= 2:
            n += 1
            if n % (11 if tier == 'quick' else 2) == 0:
                yield [A, B, cost]


def check_opt(case, ctx):
    """Finite-horizon dynamic programming with terminal cost P: one Bellman step over a grid of states and inputs."""
    from pympc.dynamics.discrete_time_systems import LinearSystem
    A, B, (Q, R, q, r) = case
    n, m = len(A), len(B[0])
    Af, Bf, Q, R = np.array(A, dtype=float), np.array(B, dtype=float), q * np.array(Q, dtype=float), r * np.array(R, dtype=float)
    P, K = LinearSystem(Af, Bf).solve_dare(Q, R)
    ctx.state()
    for x in itertools.product((-1., 0., .5, 2.), repeat=n):
        x = np.array(x)
        v = x.dot(P).dot(x)
        ku = K.dot(x)
        for d in itertools.product((-1., -.01, 0., .01, .5), repeat=m):
            u = ku + np.array(d)
            y = Af.dot(x) + Bf.dot(u)
            c = x.dot(Q).dot(x) + u.dot(R).dot(u) + y.dot(P).dot(y)
            need(c >= v - 1e-6 * (1 + abs(v)), 'input %r is better than the gain at x=%r: %g < %g', u.tolist(), x.tolist(), c, v)
            if not any(d):
                need(abs(c - v) <= 1e-6 * (1 + abs(v)), 'the gain does not attain the cost at x=%r: %g, not %g', x.tolist(), c, v)
            ctx.step()


LAYERS = [Cases('riccati', gen, check, 'all 1x1 and 2x2 integer dynamics over {-1,0,1,2} x 7 input maps, all 3x3 over {0,1} (thorough {-1,0,1}) x 3 input maps, chains/companion/diagonal/rotation up to 6 states x 6 input maps (up to 6 inputs); up to 5 costs, exact controllability and observability'),
          Cases('bellman', gen_opt, check_opt, 'one- and two-state systems: Bellman inequality on a full grid of states and competing inputs', nshards=8)]


# -- one design after another --------------------------------------------------------------------------------------------------------

def pool(n, m):
    I = lambda d: [[d[i] * int(i == j) for j in range(len(d))] for i in range(len(d))]
    Qs = [I([1] * n), I([4] * n), I(list(range(1, n + 1))), I(list(range(n, 0, -1)))]
    Rs = [I([1] * m), I([4] * m), I([.25] * m)]
    if n > 1:
        Qs += [[[2 if i == j else 1 for j in range(n)] for i in range(n)], [[2 if i == j else -1 for j in range(n)] for i in range(n)]]
    if m > 1:
        Rs += [I(list(range(1, m + 1))), I(list(range(m, 0, -1))), [[2 if i == j else 1 for j in range(m)] for i in range(m)]]
    return [(Q, R) for Q in Qs for R in Rs]


SYS = [([[1]], [[1]]), ([[2]], [[1, .5]]), ([[1, 1], [0, 1]], [[0], [1]]), ([[1, 1], [0, 1]], [[1], [1]]), ([[0, 1], [1, 1]], [[1, 0], [0, 1]]), ([[1, 0], [1, 1]], [[1], [0]]), ([[1, -1], [0, 1]], [[0], [1]])]


def gen_again(tier):
    for k, (A, B) in enumerate(SYS):
        p = len(pool(len(A), len(B[0])))
        for i in range(p):
            for j in range(p):
                if tier == 'quick' and p > 20 and (i + 2 * j) % 3:
                    continue
                yield [k, i, k, j, (i + j) % 2]
                if tier == 'thorough':
                    yield [k, i, k, j, 1 - (i + j) % 2]
    # different systems, same weights
    for k in range(2, len(SYS)):
        for l in range(2, len(SYS)):
            if k != l and np.shape(SYS[k][1]) == np.shape(SYS[l][1]):
                for i in (0, 3):
                    for same_arrays in (0, 1):
                        yield [k, i, l, i, same_arrays]


def check_again(case, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem
    k, i, l, j, same_arrays = case
    ctx.state()
    ar = lambda M: np.array(M, dtype=float)
    S = {k: LinearSystem(ar(SYS[k][0]), ar(SYS[k][1]))}
    if l != k:
        S[l] = LinearSystem(ar(SYS[l][0]), ar(SYS[l][1]))
    W = None
    for z, t in ((k, i), (l, j), (k, i)):
        A, B = ar(SYS[z][0]), ar(SYS[z][1])
        Q, R = map(ar, pool(*B.shape)[t])
        if W is None or not same_arrays:
            W = (Q, R)
        else:
            W[0][...], W[1][...] = Q, R
        P, K = S[z].solve_dare(*W)
        judge(P, K, A, B, Q, R)
        need(np.array_equal(W[0], Q) and np.array_equal(W[1], R), 'weights modified')
        for g in (P, K):
            g += 3.       # the caller's copy
        ctx.step()
    ctx.outcome('same system' if k == l else 'two systems')


LAYERS.append(Cases('again', gen_again, check_again, 'ordered pairs (i, j, i again) of weights on one system, of systems with the same weights; new arrays or the same arrays overwritten, results overwritten in between'))


# -- controllability of weakly coupled systems -------------------------------------------------------------------------------------

def gen_weak(tier):
    for e in (0, 6, 10, 12) if tier == 'quick' else (0, 3, 6, 8, 10, 12, 14):
        for be in (0, 6, 12):
            for on in (1, 0):
                w, b = on * 2. ** -e, 2. ** -be
                for A, B in (([[1., w], [0., 1.]], [[0.], [b]]), ([[.5, 0.], [w, 1.25]], [[b], [0.]]), ([[1., w], [0., .5]], [[0., 0.], [b, 2 * b]]),
                             ([[1., 1., 0.], [0., 1., w], [0., 0., 1.]], [[0.], [0.], [b]]), ([[1., 0., 0.], [0., .5, w], [0., 0., .25]], [[b, 0.], [0., 0.], [0., b]]),
                             ([[0., 1., 0., 0.], [0., 0., 0., 0.], [w, 0., 0., 1.], [0., 0., 1., 0.]], [[0., 0.], [b, 0.], [0., 0.], [0., on * b]])):
                    if e or on:
                        yield [A, B]


def check_weak(case, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem
    A, B = case
    ctx.state()
    S = LinearSystem(np.array(A), np.array(B))
    exp = rank(krylov([[Fraction(v) for v in r] for r in A], [[Fraction(v) for v in r] for r in B])) == len(A)
    got = [S.controllable, S.controllable]
    ctx.step(2)
    ctx.outcome('controllable' if exp else 'uncontrollable')
    need(bool(got[0]) == exp and bool(got[1]) == exp, 'controllable is %r for A=%r, B=%r, exact answer %r', got, A, B, exp)


LAYERS.append(Cases('weak', gen_weak, check_weak, 'states coupled by 2^-e and inputs of size 2^-b (e, b up to 12), or not coupled at all'))
