"""
Structured programs with many variables and many rows, whose verdict is known by construction; optimality is decided by
certificates (LP: HiGHS value; QP: gradient in the cone of the tight rows).
"""
import numpy as np

KINDS = ('box', 'cuts', 'infeasible', 'thin-infeasible', 'open', 'many', 'repeated', 'zero-rows')


def gen(tier):
    for n in (7, 9, 12, 16, 24) if tier == 'quick' else (7, 8, 9, 10, 11, 12, 13, 16, 20, 24, 32, 40):
        for kind in KINDS:
            for neq in sorted(set((0, 1, 2, n // 2, n - 1))):
                for v in range(3 if tier == 'quick' else 6):
                    yield [n, kind, neq, v]


def entry(i, j, v):
    """Small deterministic integers without a pattern."""
    return ((i * 7 + j * 3 + v * 5 + (i * j) % 5 + (i * i + 2 * j * j) % 7) % 9) - 4


def build(case):
    """(A, b, C, d, f, feasible, x0): x0 is a strictly feasible point when feasible."""
    n, kind, neq, v = case
    x0 = np.array([entry(3, j, v) / 16. for j in range(n)])
    rows = [np.eye(n), -np.eye(n)]
    rhs = [x0 + 1. + np.arange(n) % 3, -x0 + 1. + (np.arange(n) + v) % 2]
    A, b = np.vstack(rows), np.concatenate(rhs)
    f = np.array([entry(1, j, v) or 1 for j in range(n)], dtype=float)
    m = {'cuts': 5, 'many': 60 if n < 30 else 100, 'repeated': 3}.get(kind, 0)
    feasible = True
    if m:
        R = np.array([[entry(i + 2, j, v) for j in range(n)] for i in range(m)], dtype=float)
        A, b = np.vstack((A, R)), np.concatenate((b, R.dot(x0) + .5 + np.arange(m) % 4))
    if kind == 'repeated':
        A, b = np.vstack((A, A[::-1], 2. * A)), np.concatenate((b, b[::-1], 2. * b))
    if kind == 'zero-rows':
        A, b = np.vstack((np.zeros((1, n)), A, np.zeros((1, n)))), np.concatenate(([0.], b, [1.]))
    if kind in ('infeasible', 'thin-infeasible'):
        gap = 1. if kind == 'infeasible' else 2. ** -10
        r = np.ones(n)
        A, b = np.vstack((A, -r)), np.concatenate((b, [-(b[:n].sum() + gap)]))
        feasible = False
    if kind == 'open':
        k = (v * 3 + 1) % n
        A, b = np.delete(A, k, 0), np.delete(b, k)
        f[k] = -abs(f[k]) if v != 1 else abs(f[k])
    C = np.array([[entry(i + 5, (j * 2 + i) % (n + 3), v + 1) + (4 if i == j else 0) for j in range(n)] for i in range(neq)], dtype=float).reshape(neq, n)
    d = C.dot(x0)
    if neq and np.linalg.matrix_rank(C) < neq:
        C, d = C + 8. * np.eye(neq, n), None
        d = C.dot(x0)
    return A, b, C, d, f, feasible, x0


def hessian(n, v):
    if v % 3 == 0:
        return np.eye(n)
    H = np.array([[4. if i == j else (1. if abs(i - j) == 1 else 0.) for j in range(n)] for i in range(n)])
    return H if v % 3 == 1 else np.diag(1. + np.arange(n) % 5).astype(float)
