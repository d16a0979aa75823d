"""
Reference model: exact rational polyhedra and small exact linear algebra.

A polyhedron {x | A x <= b, C x = d} with rational data is kept in generator form (vertices, rays, lines) by the
double description method over the integers.  Nothing here imports the code under test, numpy's solvers or scipy:
every answer (empty, bounded, optimum of an LP, vertices, inclusion, projection, redundancy) is exact.
"""
from fractions import Fraction
from functools import reduce
from math import gcd


def _gcd_list(v):
    g = 0
    for a in v:
        if a:
            g = gcd(g, a)
            if g == 1:
                return 1
    return g


def _prim(v):
    g = _gcd_list(v)
    if g > 1:
        return tuple(a // g for a in v)
    return tuple(v)


def to_int_row(row):
    """Scales a row of rationals (int, float, Fraction) by a positive number to a primitive integer tuple."""
    if all(type(a) is int for a in row):
        return _prim(row)
    fr = [a if isinstance(a, Fraction) else Fraction(a) for a in row]
    l = 1
    for a in fr:
        l = l * a.denominator // gcd(l, a.denominator)
    return _prim([int(a * l) for a in fr])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


class Poly(object):
    """Exact polyhedron in R^n.  Immutable: add() returns a new object sharing the generators' tuples."""

    __slots__ = ('n', 'lin', 'rays', 'nbits')

    def __init__(self, n):
        self.n = n
        self.lin = [tuple(int(i == j) for j in range(n + 1)) for i in range(n + 1)]
        self.rays = []      # list of (vector, zero-set bitmask)
        self.nbits = 0

    @staticmethod
    def universe(n):
        p = Poly(n)
        return p._cut((1,) + (0,) * n, False)

    @staticmethod
    def build(n, ineqs, eqs=()):
        """ineqs: iterable of (a, b) meaning a.x <= b;  eqs: (c, d) meaning c.x == d."""
        p = Poly.universe(n)
        for c, d in eqs:
            p = p.add(c, d, True)
        for a, b in ineqs:
            p = p.add(a, b)
        return p

    def add(self, a, b, equality=False):
        h = to_int_row([b] + [-x for x in a])
        return self._cut(h, equality)

    def _cut(self, h, equality):
        q = Poly.__new__(Poly)
        q.n = self.n
        bit = 1 << self.nbits
        q.nbits = self.nbits + 1

        # a line that is not tangent to h
        for k, l in enumerate(self.lin):
            s = dot(h, l)
            if s != 0:
                if s < 0:
                    l = tuple(-x for x in l)
                    s = -s
                lin = []
                for m, l2 in enumerate(self.lin):
                    if m == k:
                        continue
                    t = dot(h, l2)
                    lin.append(l2 if t == 0 else _prim([s * x - t * y for x, y in zip(l2, l)]))
                rays = []
                for r, z in self.rays:
                    t = dot(h, r)
                    rays.append((r if t == 0 else _prim([s * x - t * y for x, y in zip(r, l)]), z | bit))
                if not equality:
                    rays.append((l, (bit - 1)))
                q.lin = lin
                q.rays = rays
                return q

        q.lin = self.lin
        pos, zero, neg = [], [], []
        for r, z in self.rays:
            s = dot(h, r)
            if s > 0:
                pos.append((r, z, s))
            elif s < 0:
                neg.append((r, z, s))
            else:
                zero.append((r, z | bit))
        if not neg and not equality:
            q.rays = zero + [(r, z) for r, z, _ in pos]
            return q
        new = []
        allz = [z for _, z in self.rays]
        for p, zp, sp in pos:
            for m, zm, sm in neg:
                zz = zp & zm
                cnt = 0
                for z in allz:
                    if z & zz == zz:
                        cnt += 1
                        if cnt > 2:
                            break
                if cnt == 2:
                    new.append((_prim([sp * y - sm * x for x, y in zip(p, m)]), zz | bit))
        q.rays = zero + new
        if not equality:
            q.rays += [(r, z) for r, z, _ in pos]
        return q

    # -- queries --------------------------------------------------------------------------------------------------

    @property
    def empty(self):
        return not any(r[0] for r, _ in self.rays)

    @property
    def bounded(self):
        """Empty counts as bounded."""
        if self.empty:
            return True
        return not self.lin and all(r[0] for r, _ in self.rays)

    def int_vertices(self):
        """Homogeneous integer vertices (one point per minimal face if there are lines)."""
        return [r for r, _ in self.rays if r[0]]

    def vertices(self):
        return [tuple(Fraction(x, r[0]) for x in r[1:]) for r, _ in self.rays if r[0]]

    def directions(self):
        return [r[1:] for r, _ in self.rays if not r[0]]

    def lines(self):
        return [l[1:] for l in self.lin]

    def minimize(self, f):
        """('infeasible'|'unbounded'|'optimal', value or None)."""
        vs = [r for r, _ in self.rays if r[0]]
        if not vs:
            return 'infeasible', None
        f = [x if type(x) is int else Fraction(x) for x in f]
        for l in self.lin:
            if dot(f, l[1:]) != 0:
                return 'unbounded', None
        for r, _ in self.rays:
            if not r[0] and dot(f, r[1:]) < 0:
                return 'unbounded', None
        return 'optimal', min(Fraction(dot(f, v[1:])) / v[0] for v in vs)

    def flat(self, n_eq=0):
        """
        Do the inequalities (rows added after the first n_eq equalities) leave an empty relative interior?  I.e. is the
        set empty, or some inequality tight on all of it (an implicit equality)?
        """
        if self.empty:
            return True
        m = (1 << self.nbits) - 1
        for _, z in self.rays:
            m &= z
        return (m >> (1 + n_eq)) != 0

    def vi(self, g, x):
        """
        Largest violation of the variational inequality g.(y - x) >= 0 over the polyhedron: -inf_y g.(y - x) (float),
        the infimum over vertices plus |g.r| terms for descent rays (normalised) and lines.
        """
        gx = dot(g, x)
        worst = 0.
        for r, _ in self.rays:
            if r[0]:
                worst = max(worst, gx - dot(g, r[1:]) / r[0])
            else:
                n = sum(t * t for t in r[1:]) ** .5
                worst = max(worst, -dot(g, r[1:]) / n)
        for l in self.lin:
            n = sum(t * t for t in l[1:]) ** .5
            worst = max(worst, abs(dot(g, l[1:])) / n)
        return worst

    def sup(self, a):
        s, v = self.minimize([-x for x in a])
        return s, (None if v is None else -v)

    def included_in_ineq(self, a, b):
        """Is every point of the polyhedron in {a.x <= b}?"""
        s, v = self.sup(a)
        return s == 'infeasible' or (s == 'optimal' and v <= b)

    def dim(self):
        """Dimension of the affine hull (-1 if empty)."""
        if self.empty:
            return -1
        return rank([list(r) for r, _ in self.rays] + [list(l) for l in self.lin]) - 1

    def key(self):
        """Canonical form of the set for pointed polyhedra (sorted generators)."""
        return (tuple(sorted(_prim(r) for r, _ in self.rays)), tuple(sorted(self.lin))) if not self.lin else None

    def project(self, dims):
        """Vertices of conv of the projected vertices (bounded polyhedra): exact list of extreme points."""
        pts = sorted(set(tuple(v[i] for i in dims) for v in self.vertices()))
        return extreme_points(pts)


def extreme_points(pts):
    """Exact extreme points of a finite set of rational points (by LP-free membership via double description)."""
    pts = sorted(set(pts))
    if len(pts) <= 2:
        return pts
    n = len(pts[0])
    facets, eqs = hull_facets(pts)
    out = []
    for p in pts:
        tight = [f[1:] for f in facets if f[0] + dot(f[1:], p) == 0] + [e[1:] for e in eqs]
        if tight and rank([list(t) for t in tight]) == n:
            out.append(p)
    return out


def hull_facets(pts):
    """
    H-representation of conv(pts): lists of h = (h0, h1..hn) with h0 + h.x >= 0 (facets) and == 0 (equalities).
    Polar double description: the cone of valid inequalities {h | h0 + h.p >= 0 for all p}.
    """
    n = len(pts[0])
    c = Poly(n)
    for p in pts:
        c = c._cut(to_int_row([1] + list(p)), False)
    facets = [r for r, _ in c.rays]
    eqs = list(c.lin)
    return facets, eqs


def rank(M):
    """Exact rank."""
    M = [[Fraction(x) for x in r] for r in M]
    rk = 0
    rows = len(M)
    cols = len(M[0]) if rows else 0
    for c in range(cols):
        piv = None
        for r in range(rk, rows):
            if M[r][c] != 0:
                piv = r
                break
        if piv is None:
            continue
        M[rk], M[piv] = M[piv], M[rk]
        pv = M[rk][c]
        for r in range(rk + 1, rows):
            if M[r][c] != 0:
                k = M[r][c] / pv
                M[r] = [x - k * y for x, y in zip(M[r], M[rk])]
        rk += 1
        if rk == rows:
            break
    return rk


def solve(M, v):
    """Exact solution of a square system (None if singular)."""
    n = len(M)
    M = [[Fraction(x) for x in r] + [Fraction(y)] for r, y in zip(M, v)]
    for c in range(n):
        piv = next((r for r in range(c, n) if M[r][c] != 0), None)
        if piv is None:
            return None
        M[c], M[piv] = M[piv], M[c]
        pv = M[c][c]
        M[c] = [x / pv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                k = M[r][c]
                M[r] = [x - k * y for x, y in zip(M[r], M[c])]
    return [r[-1] for r in M]


def matmul(A, B):
    Bt = list(zip(*B))
    return [[dot(r, c) for c in Bt] for r in A]


def matvec(A, x):
    return [dot(r, x) for r in A]


def frac(M):
    """Exact Fractions of a nested list / numpy array."""
    if hasattr(M, 'tolist'):
        M = M.tolist()
    if isinstance(M, (list, tuple)):
        return [frac(x) for x in M]
    return Fraction(M)
