"""C15: the linear-algebra helpers every layer is built on, over all small integer matrices."""
import itertools
import numpy as np
from ..core import Cases, need
from ..ref import rank


# -- nullspace and independent rows ---------------------------------------------------------------------------------------

def matrices(tier):
    for m, n, vals in [(1, 1, (-2, -1, 0, 1, 3)), (1, 2, (-2, -1, 0, 1, 3)), (1, 3, (-1, 0, 1, 2)), (2, 1, (-2, -1, 0, 1, 3)), (2, 2, (-2, -1, 0, 1, 3)), (2, 3, (-1, 0, 1)), (3, 2, (-1, 0, 1)), (3, 1, (-1, 0, 2)),
                       (3, 3, (0, 1) if tier == 'quick' else (-1, 0, 1)), (4, 2, (0, 1)), (2, 4, (0, 1) if tier == 'quick' else (-1, 0, 1)), (3, 4, (0, 1)), (4, 3, (0, 1)), (0, 1, (0,)), (0, 3, (0,))]:
        for e in itertools.product(vals, repeat=m * n):
            yield [m, n, list(e)]
    # low-rank and tall/wide products up to 6 x 6
    for m in range(1, 7):
        for n in range(1, 7):
            for k in range(0, min(m, n) + 1):
                for v in range(3):
                    L = [[((i * 3 + j * 5 + v) % 5) - 2 for j in range(k)] for i in range(m)]
                    R = [[((i * 7 + j * 2 + 3 * v) % 7) - 3 for j in range(n)] for i in range(k)]
                    yield [m, n, [sum(L[i][t] * R[t][j] for t in range(k)) for i in range(m) for j in range(n)]]


def gen_lin(tier):
    for m, n, e in matrices(tier):
        yield [m, n, e, 1.]
        if m * n > 4 and m * n % 3 == 0 and tier == 'thorough' or (m, n) in ((2, 2), (3, 2), (5, 4)):
            yield [m, n, e, 64.]
            yield [m, n, e, 2. ** -6]
            yield [m, n, e, 2. ** -14]
            yield [m, n, e, 2. ** 13]
            yield [m, n, e, 2. ** -32]
            yield [m, n, e, 2. ** 30]
            # rows of very different size
            yield [m, n, [v * 2. ** (11 * (i // n % 2)) for i, v in enumerate(e)], 1.]
            yield [m, n, [v * 2. ** (9 - 11 * (i // n % 2)) for i, v in enumerate(e)], 1.]
            # columns of very different size
            yield [m, n, [v * (2. ** -14 if i % n % 2 else 1.) for i, v in enumerate(e)], 1.]
            yield [m, n, [v * (1. if i % n % 2 else 2. ** -14) for i, v in enumerate(e)], 1.]


def check_lin(case, ctx):
    from pympc.geometry.utils import nullspace_basis, linearly_independent_rows
    m, n, e, sc = case
    A = sc * np.array(e, dtype=float).reshape(m, n)
    A0 = A.copy()
    rows = [e[i * n:(i + 1) * n] for i in range(m)]
    r = rank(rows) if m else 0
    ctx.state()
    ctx.outcome('rank %d' % r)
    Z = nullspace_basis(A)
    ctx.step()
    need(Z.shape == (n, n - r), 'nullspace basis of a %dx%d matrix of rank %d has shape %s', m, n, r, Z.shape)
    need(np.abs(A.dot(Z)).max(initial=0.) <= 1.e-9 * (1. + np.abs(A).max(initial=0.)), 'A Z is not zero: %r', A.dot(Z).tolist())
    need(np.abs(Z.T.dot(Z) - np.eye(n - r)).max(initial=0.) <= 1.e-9, 'nullspace basis is not orthonormal')
    if m and 2. ** -20 < sc < 2. ** 20:      # the tolerance for independence is an absolute one
        ind = [int(i) for i in linearly_independent_rows(A)]
        ctx.step()
        need(len(set(ind)) == len(ind) and all(0 <= i < m for i in ind), 'row indices %r', ind)
        need(len(ind) == r, '%d independent rows listed (%r), the rank is %d', len(ind), ind, r)
        need(r == 0 or rank([rows[i] for i in ind]) == r, 'rows %r are dependent', ind)
    need(np.array_equal(A, A0), 'argument modified')


# -- planes ------------------------------------------------------------------------------------------------------------------

def gen_plane(tier):
    for n, vals, seeds in [(1, (-3, -1, 0, 1, 2), (0, 1)), (2, (-1, 0, 1, 2), (0, 1, 2)), (3, (0, 1) if tier == 'quick' else (-1, 0, 1), (0, 1))]:
        grid = list(itertools.product(vals, repeat=n))
        for pts in itertools.permutations(grid, n) if n < 3 else itertools.combinations(grid, n):
            if n == 1 or rank([[a - b for a, b in zip(p, pts[0])] for p in pts[1:]]) == n - 1:
                for s in seeds:
                    yield [n, [list(p) for p in pts], s, 1.]
                    if s == 0:
                        for sc in (2. ** -5, 2. ** -9, 64.):
                            yield [n, [list(p) for p in pts], s, sc]
    for n in (4, 5):
        e = [[int(i == j) for j in range(n)] for i in range(n)]
        for k in range(2 ** n):
            pts = [[t * (2 if k >> i & 1 else -1) for t in e[i]] for i in range(n)]
            yield [n, pts, k % 3, 1.]
            # through the origin
            yield [n, [[0] * n] + pts[1:], k % 3, 1.]
            for sc in (50., 2. ** -5, 2. ** -9):
                yield [n, pts, k % 3, sc]


def check_plane(case, ctx):
    from pympc.geometry.utils import plane_through_points
    n, pts, seed, sc = case
    P = [sc * np.array(p, dtype=float) for p in pts]
    P0 = [p.copy() for p in P]
    np.random.seed(seed)
    a, d = plane_through_points(P)
    ctx.state()
    ctx.step()
    need(np.asarray(a).shape == (n,) and np.ndim(d) == 0, 'plane has shapes %s, %s', np.shape(a), np.shape(d))
    need(abs(np.linalg.norm(a) - 1.) <= 1.e-9, 'normal %r does not have unit norm', a.tolist())
    need(d >= -1.e-9 * sc, 'offset %r is negative', d)
    for p in P:
        need(abs(a.dot(p) - d) <= 1.e-7 * (min(1., sc) + np.abs(p).max()), 'the plane %r x = %r misses the point %r by %g', a.tolist(), d, p.tolist(), abs(a.dot(p) - d))
    need(all(np.array_equal(p, q) for p, q in zip(P, P0)), 'points modified')
    ctx.outcome('through the origin' if abs(d) < 1e-9 else 'off the origin')


# -- same rows / same vectors ----------------------------------------------------------------------------------------------

VECS = [(1, 0), (0, 1), (1, 1), (-1, 1), (2, 0), (-1, 0), (3, 3), (0, 0), (1, 2)]


def gen_rows(tier):
    k = len(VECS)
    for na in (1, 2, 3):
        for nb in (1, 2, 3):
            if abs(na - nb) > 1:
                continue
            sel = range(k) if max(na, nb) < 3 else (range(5) if tier == 'quick' else range(7))
            for a in itertools.combinations_with_replacement(sel, na) if na == 3 else itertools.product(sel, repeat=na):
                for b in itertools.product(sel, repeat=nb):
                    yield [list(a), list(b), 0.]
    for a in range(k):
        for b in range(k):
            for eps in (1e-3, 1e-2, 2. ** -13, -2. ** -13) + ((2. ** -14, -2. ** -14) if a != 6 and b != 6 else ()):
                yield [[a, b], [b, a], eps]


def gen_counts(tier):
    """Long lists: all multiplicities of 2..3 different vectors, in three orders."""
    for vs in ((0, 1), (0, 4), (2, 6), (0, 1, 5), (3, 2, 8)):
        for n in (4, 5, 6) if tier == 'quick' else (4, 5, 6, 7, 8):
            cs = [c for c in itertools.product(range(n + 1), repeat=len(vs)) if sum(c) == n]
            for ca in cs:
                for cb in cs:
                    a = [v for v, k in zip(vs, ca) for _ in range(k)]
                    b = [v for v, k in zip(vs, cb) for _ in range(k)]
                    yield [a, b[::-1], 0.]
                    yield [a, b[1::2] + b[::2], 0.]
                    if ca == cb:
                        yield [a, b[2:] + b[:2], 1e-3]


def multiset_equal(X, Y):
    Y = list(Y)
    for x in X:
        for i, y in enumerate(Y):
            if max(abs(s - t) for s, t in zip(x, y)) <= 1e-9:
                del Y[i]
                break
        else:
            return False
    return not Y


def check_rows(case, ctx):
    from pympc.geometry.utils import same_rows, same_vectors
    a, b, eps = case
    A = np.array([VECS[i] for i in a], dtype=float)
    B = np.array([VECS[i] for i in b], dtype=float)
    A[0, 0] += eps
    A0, B0 = A.copy(), B.copy()
    ctx.state()
    e = multiset_equal(A.tolist(), B.tolist())
    r = same_rows(A, B, normalize=False)
    ctx.step()
    need(bool(r) == e, 'same_rows(%r, %r, normalize=False) is %r, expected %r', A.tolist(), B.tolist(), r, e)
    r = same_vectors([v for v in A], [v for v in B])
    ctx.step()
    need(bool(r) == e, 'same_vectors(%r, %r) is %r, expected %r', A.tolist(), B.tolist(), r, e)
    nA, nB = np.linalg.norm(A0, axis=1), np.linalg.norm(B0, axis=1)
    if nA.min() > 0 and nB.min() > 0:
        e2 = multiset_equal((A0 / nA[:, None]).tolist(), (B0 / nB[:, None]).tolist())
        r = same_rows(A, B)
        ctx.step()
        need(bool(r) == e2, 'same_rows(%r, %r) is %r, expected %r', A0.tolist(), B0.tolist(), r, e2)
        ctx.outcome('%s/%s' % (e, e2))
        # a second call on the same arrays: nothing was consumed or rescaled
        need(bool(same_rows(A, B)) == e2 and bool(same_rows(A, B, normalize=False)) == e, 'same_rows changes its answer when asked again')
        ctx.step(2)
    need(np.array_equal(A, A0) and np.array_equal(B, B0), 'arguments modified')


LAYERS = [Cases('linear', gen_lin, check_lin, 'all matrices of 15 shapes up to 4x4 over small integers, products of every rank up to 6x6; scales'),
          Cases('planes', gen_plane, check_plane, 'all n-tuples of affinely independent grid points in dimension 1..3, coordinate stars in dimension 4, 5; enumerated random offsets'),
          Cases('rows', gen_rows, check_rows, 'all pairs of lists of 1..3 vectors out of 9 (repetitions, multiples, opposite signs, zero), and perturbed ones'),
          Cases('counts', gen_counts, check_rows, 'lists of 4..6 (thorough 8) vectors: all pairs of multiplicities of 2..3 different vectors')]
