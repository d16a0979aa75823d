"""
Reference model of the finite-horizon optimal control problem: exact linear forms of the states in (x0, u(0), ..., u(N-1)),
the constraints on them, and the exact quadratic cost.  Everything is rational; nothing here uses the code under test.
"""
from fractions import Fraction
import numpy as np
from scipy.optimize import linprog, nnls
from .ref import Poly, dot


class OCP(object):
    def __init__(self, modes, doms, seq, Q, R, P, XN, nx, nu):
        """modes: [(A, B, c)]; doms: [(ineqs, eqs)] over (x, u); seq: mode per step; XN: (ineqs, eqs) over x."""
        F = Fraction
        N = len(seq)
        self.nx, self.nu, self.N = nx, nu, N
        nv = nx + N * nu
        unit = lambda k: [F(int(j == k)) for j in range(nv + 1)]
        x = [unit(k) for k in range(nx)]        # rows: coefficients over (x0, u, 1)
        self.states = [x]
        ineqs, eqs = [], []
        quads = []                              # (form, weight matrix entries) of the cost 1/2 sum z' W z

        def comb(coef, forms, const=0):
            r = [F(0)] * (nv + 1)
            for c, f in zip(coef, forms):
                if c:
                    c = F(c)
                    r = [a + c * b for a, b in zip(r, f)]
            r[nv] += F(const)
            return r
        for t, m in enumerate(seq):
            A, B, c = modes[m]
            u = [unit(nx + t * nu + k) for k in range(nu)]
            z = x + u
            for a, b in doms[m][0]:
                ineqs.append(comb(a, z, -F(b)))
            for a, b in doms[m][1]:
                eqs.append(comb(a, z, -F(b)))
            quads.append((x, Q))
            quads.append((u, R))
            x = [comb(list(A[i]) + list(B[i]), z, c[i]) for i in range(nx)]
            self.states.append(x)
        for a, b in XN[0]:
            ineqs.append(comb(a, x, -F(b)))
        for a, b in XN[1]:
            eqs.append(comb(a, x, -F(b)))
        quads.append((x, P))
        self.ineqs, self.eqs = ineqs, eqs
        H = np.zeros((nv + 1, nv + 1))
        for forms, W in quads:
            M = np.array([[float(v) for v in f] for f in forms])
            H += M.T.dot(np.array(W, dtype=float)).dot(M)
        self.H = H                              # cost = 1/2 w' H w, w = (x0, u, 1)

    def at(self, x0):
        """Rows over u only, for a given initial state: [(a, b)], [(c, d)] exact."""
        nx = self.nx
        x0 = [Fraction(v) for v in x0]
        f = lambda r: (r[nx:-1], -r[-1] - dot(r[:nx], x0))
        return [f(r) for r in self.ineqs], [f(r) for r in self.eqs]

    def cost(self, x0, u):
        w = np.concatenate((np.array(x0, dtype=float), np.array(u, dtype=float), [1.]))
        return .5 * float(w.dot(self.H).dot(w))

    def gradient(self, x0, u):
        w = np.concatenate((np.array(x0, dtype=float), np.array(u, dtype=float), [1.]))
        return self.H[self.nx:-1].dot(w)

    def feasible_param_rows(self):
        """Rows over (x0, u)."""
        return [(r[:-1], -r[-1]) for r in self.ineqs], [(r[:-1], -r[-1]) for r in self.eqs]


def num(rows, n):
    A = np.array([[float(v) for v in a] for a, _ in rows]).reshape(len(rows), n)
    b = np.array([float(v) for _, v in rows])
    return A, b


def margin(ineqs, eqs, n):
    """
    Largest s such that {a.u <= b - s |a|, eqs} is nonempty (float, HiGHS): > 0 interior, < 0 empty by that much; None if
    the equalities alone are infeasible.  Rows without u (constants) count with weight 1.
    """
    A, b = num(ineqs, n)
    nr = np.linalg.norm(A, axis=1)
    nr[nr < 1e-12] = 1.
    Ce, de = num(eqs, n)
    r = linprog(np.concatenate((np.zeros(n), [-1.])), A_ub=np.hstack((A, nr[:, None])) if len(b) else None, b_ub=b if len(b) else None,
                A_eq=np.hstack((Ce, np.zeros((len(de), 1)))) if len(de) else None, b_eq=de if len(de) else None,
                bounds=[(None, None)] * n + [(None, 1.)], method='highs')
    if r.status == 2:
        return None
    if r.status == 0:
        return float(-r.fun)
    raise RuntimeError('linprog status %r' % r.status)


def kkt_gap(g, ineqs, eqs, u, n, act_tol=1e-6):
    """Distance of -g from the cone of the gradients of the constraints tight at u (0: u is optimal)."""
    A, b = num(ineqs, n)
    C, d = num(eqs, n)
    sc = 1. + np.abs(u).max()
    nr = np.maximum(np.linalg.norm(A, axis=1), 1e-12)
    act = (b - A.dot(u)) / nr <= act_tol * sc
    G = np.vstack((A[act] / nr[act, None], C, -C)).T
    if G.shape[1] == 0:
        return float(np.linalg.norm(g))
    return float(nnls(G, -g, maxiter=1000)[1])


def violation(ineqs, eqs, u, n):
    A, b = num(ineqs, n)
    C, d = num(eqs, n)
    v = 0.
    if len(b):
        v = max(v, ((A.dot(u) - b) / np.maximum(1., np.linalg.norm(A, axis=1))).max())
    if len(d):
        v = max(v, np.abs(C.dot(u) - d).max())
    return v
