"""
Reference solution of a strictly convex QP over an exact polyhedron: candidate by dual non-negative least squares
(float), refined on its active set, then certified on the exact generators of the feasible set (variational inequality).
The certificate, not the candidate, is what is trusted.
"""
import numpy as np
from scipy.optimize import nnls
from .ref import Poly


class Uncertified(Exception):
    pass


def solve(H, f, ineqs, eqs=(), poly=None, tol=1.e-7):
    """Returns (x, value) or (None, None) if infeasible."""
    n = len(f)
    p = poly if poly is not None else Poly.build(n, ineqs, eqs)
    if p.empty:
        return None, None
    H = np.array(H, dtype=float)
    f = np.array(f, dtype=float)
    rows = [list(a) for a, _ in ineqs] + [list(c) for c, _ in eqs] + [[-t for t in c] for c, _ in eqs]
    rhs = [b for _, b in ineqs] + [d for _, d in eqs] + [-d for _, d in eqs]
    A = np.array(rows, dtype=float).reshape(len(rows), n)
    b = np.array(rhs, dtype=float)
    # start from an exactly feasible point to keep the shifted problem well scaled
    L = np.linalg.cholesky(H)
    Li = np.linalg.inv(L)
    x0 = -np.linalg.solve(H, f)
    best = None
    if len(rows) == 0 or np.all(A.dot(x0) <= b):
        best = x0
    else:
        M = A.dot(Li.T)
        v = b - A.dot(x0)
        sc = max(1., np.abs(v).max())
        E = np.vstack((-M.T, -(v / sc)))
        y, r = nnls(E, np.concatenate((np.zeros(n), [1.])), maxiter=2000)
        res = E.dot(y) - np.concatenate((np.zeros(n), [1.]))
        if abs(res[-1]) > 1e-14:
            cands = [x0 + sc * Li.T.dot(s * res[:-1] / res[-1]) for s in (1., -1.)]
            best = min(cands, key=lambda x: np.max(A.dot(x) - b))
            act = [i for i in range(len(rows)) if y[i] > 1.e-10]
            if act:
                Aa = A[act]
                K = np.block([[H, Aa.T], [Aa, np.zeros((len(act), len(act)))]])
                s = np.linalg.lstsq(K, np.concatenate((-f, b[act])), rcond=None)[0]
                if np.max(A.dot(s[:n]) - b) <= 1.e-9 * (1. + np.abs(b).max()):
                    best = s[:n]
    if best is None:
        raise Uncertified('no candidate')
    # a flat or badly scaled feasible set: fall back on the best generator combination
    g = (H.dot(best) + f).tolist()
    mag = (1. + np.abs(best).max()) * (1. + np.abs(g).max())
    if np.max(A.dot(best) - b, initial=0.) > tol * mag or p.vi(g, best.tolist()) > tol * mag:
        best = generator_descent(H, f, p)
        g = (H.dot(best) + f).tolist()
        mag = (1. + np.abs(best).max()) * (1. + np.abs(g).max())
        if p.vi(g, best.tolist()) > 10. * tol * mag:
            raise Uncertified('vi %g' % p.vi(g, best.tolist()))
    return best, float(.5 * best.dot(H).dot(best) + f.dot(best))


def generator_descent(H, f, p):
    """min over conv(vertices) + cone(rays) + span(lines) by NNLS with a penalised convexity row."""
    V = [np.array(v, dtype=float) for v in p.vertices()]
    R = [np.array(r, dtype=float) for r in p.directions()] + [s * np.array(l, dtype=float) for l in p.lines() for s in (1., -1.)]
    G = np.array(V + R).T
    L = np.linalg.cholesky(H)
    w = 1.e5 * (1. + np.abs(G).max())
    E = np.vstack((L.T.dot(G), w * np.array([1.] * len(V) + [0.] * len(R))))
    t = np.concatenate((-np.linalg.solve(L, f), [w]))
    y, _ = nnls(E, t, maxiter=10000)
    s = sum(y[:len(V)])
    y[:len(V)] /= s
    return G.dot(y)
