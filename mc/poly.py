"""Helpers shared by the polyhedron checks: exact view of a pympc Polyhedron and set comparisons."""
import itertools
from fractions import Fraction
import numpy as np
from .core import need
from .ref import Poly, dot, frac, hull_facets, rank, solve


def rows_of(p):
    """Exact constraint lists of a real Polyhedron object (public attributes A, b, C, d)."""
    A, b, C, d = p.A, p.b, p.C, p.d
    need(A.ndim == 2 and b.ndim == 1 and A.shape[0] == b.shape[0], 'inconsistent inequalities: A %s, b %s', A.shape, b.shape)
    need(C.ndim == 2 and d.ndim == 1 and C.shape[0] == d.shape[0] and C.shape[1] == A.shape[1], 'inconsistent equalities: C %s, d %s', C.shape, d.shape)
    return list(zip(frac(A), frac(b))), list(zip(frac(C), frac(d)))


def exact(p):
    i, e = rows_of(p)
    return Poly.build(p.A.shape[1], i, e)


def real(ineqs, eqs, n, dtype=float):
    from pympc.geometry.polyhedron import Polyhedron
    A = np.array([list(a) for a, _ in ineqs], dtype=dtype).reshape(len(ineqs), n)
    b = np.array([t for _, t in ineqs], dtype=dtype)
    if eqs:
        return Polyhedron(A, b, np.array([list(c) for c, _ in eqs], dtype=dtype).reshape(len(eqs), n), np.array([t for _, t in eqs], dtype=dtype))
    return Polyhedron(A, b)


def included(p, ineqs, eqs, slack=0):
    """Exact: is the exact polyhedron p inside {ineqs, eqs} relaxed by slack * (1-norm of the row)?"""
    if p.empty:
        return True
    for a, b in ineqs:
        s, v = p.sup(a)
        if s != 'optimal' or v > b + slack * sum(abs(x) for x in a):
            return False
    for c, d in eqs:
        for sg in (1, -1):
            r = [sg * x for x in c]
            s, v = p.sup(r)
            if s != 'optimal' or v > sg * d + slack * sum(abs(x) for x in c):
                return False
    return True


def relaxed(n, ineqs, eqs, slack):
    """The polyhedron with every row relaxed by slack (equalities become thin slabs)."""
    w = lambda a: slack * sum(abs(x) for x in a)
    rows = [(a, b + w(a)) for a, b in ineqs] + [(c, d + w(c)) for c, d in eqs] + [([-t for t in c], -d + w(c)) for c, d in eqs]
    return Poly.build(n, rows, [])


def same_set(p_real, ineqs, eqs, ref=None, slack=1e-9, what='set'):
    """Exact equality (up to slack) of a real Polyhedron object with the reference constraints."""
    n = p_real.A.shape[1]
    ri, re = rows_of(p_real)
    q = Poly.build(n, ri, re)
    r = ref if ref is not None else Poly.build(n, ineqs, eqs)
    if q.empty != r.empty and slack:
        # flat sets: roundoff in the rows may separate two touching half-spaces
        if q.empty:
            q = relaxed(n, ri, re, slack)
        else:
            r = relaxed(n, ineqs, eqs, slack)
        slack = 4 * slack
    need(q.empty == r.empty, '%s is %s, expected %s', what, 'empty' if q.empty else 'nonempty', 'empty' if r.empty else 'nonempty')
    need(included(q, ineqs, eqs, slack), '%s is not contained in the expected set: A=%r b=%r C=%r d=%r', what, p_real.A.tolist(), p_real.b.tolist(), p_real.C.tolist(), p_real.d.tolist())
    need(included(r, ri, re, slack), '%s does not contain the expected set: A=%r b=%r C=%r d=%r', what, p_real.A.tolist(), p_real.b.tolist(), p_real.C.tolist(), p_real.d.tolist())


def same_points(real_pts, exact_pts, tol, what='vertices', dup_ok=True):
    """The two collections contain the same points (as sets)."""
    ex = [np.array([float(t) for t in v]) for v in exact_pts]
    rp = [np.asarray(v, dtype=float) for v in real_pts]
    for v in rp:
        need(v.ndim == 1 and (not ex or v.shape == ex[0].shape), '%s: point of shape %s', what, v.shape)
    for v in ex:
        need(any(np.max(np.abs(v - w)) <= tol * (1. + np.max(np.abs(v))) for w in rp), '%s: %s is missing from %s', what, v.tolist(), [w.tolist() for w in rp])
    for w in rp:
        need(any(np.max(np.abs(v - w)) <= tol * (1. + np.max(np.abs(v))) for v in ex), '%s: %s is not one of %s', what, w.tolist(), [v.tolist() for v in ex])
    if not dup_ok:
        need(len(rp) == len(ex), '%s: %d points, expected %d', what, len(rp), len(ex))


def describes_hull(A, b, pts, tol=1.e-6, what='polyhedron'):
    """{A x <= b} is conv(pts), full dimensional: all rows valid for all points, every exact facet present."""
    facets, eqs = hull_facets(pts)
    assert not eqs
    A = np.asarray(A, dtype=float)
    b = np.asarray(b, dtype=float)
    need(A.ndim == 2 and b.shape == (A.shape[0],), '%s: A %s, b %s', what, A.shape, b.shape)
    P = np.array([[float(t) for t in p] for p in pts])
    nr = np.linalg.norm(A, axis=1)
    nz = nr > 1.e-9
    An = A[nz] / nr[nz, None]
    bn = b[nz] / nr[nz]
    sc = 1. + np.abs(P).max()
    if len(bn):
        viol = An.dot(P.T) - bn[:, None]
        need(viol.max() <= tol * sc, '%s excludes the point %s: violation %g', what, P[np.unravel_index(viol.argmax(), viol.shape)[1]].tolist(), viol.max())
    need(np.all(b[~nz] >= -tol), '%s has an unsatisfiable trivial row', what)
    for h in facets:
        if not any(h[1:]):
            continue
        a = -np.array(h[1:], dtype=float)
        r = np.linalg.norm(a)
        a, c = a / r, float(h[0]) / r
        need(any(np.max(np.abs(a - An[k])) <= tol and abs(c - bn[k]) <= tol * sc for k in range(len(bn))), '%s: facet %s x <= %g is missing', what, a.tolist(), c)


def grid(n, vals):
    return itertools.product(vals, repeat=n)


_MEMO = {}


def memo(f):
    def g(*args):
        try:
            key = (f.__name__,) + tuple(tuple((tuple(a), b) for a, b in x) if isinstance(x, (list, tuple)) else x for x in args)
            hash(key)
        except TypeError:
            return f(*args)
        if key not in _MEMO:
            if len(_MEMO) > 20000:
                _MEMO.clear()
            _MEMO[key] = f(*args)
        return _MEMO[key]
    return g


@memo
def in_plane_norms(ineqs, eqs):
    """Norm of every inequality row along the affine subspace of the equalities (floats; exactly 0 when parallel)."""
    if eqs:
        C = [[Fraction(t) for t in c] for c, _ in eqs]
        CCt = [[dot(r, s) for s in C] for r in C]
    out = []
    for a, _ in ineqs:
        a = [Fraction(t) for t in a]
        if eqs:
            w = solve(CCt, [dot(c, a) for c in C])
            if w is None:
                return None
            a = [t - sum(wk * c[i] for wk, c in zip(w, C)) for i, t in enumerate(a)]
        out.append(float(sum(t * t for t in a)) ** .5)
    return out


@memo
def chebyshev(n, ineqs, eqs):
    """
    ('radius', r): r is the largest signed radius of a ball (within the affine subspace) satisfying all inequalities;
    ('infinite', None); ('infeasible', None) if some inequality has no solution for any radius; None if the equalities are
    linearly dependent.
    """
    nr = in_plane_norms(ineqs, eqs)
    if nr is None:
        return None
    q = Poly.universe(n + 1)
    for c, d in eqs:
        q = q.add(list(c) + [0], d, True)
    for (a, b), r in zip(ineqs, nr):
        q = q.add(list(a) + [Fraction(r)], b)
    s, v = q.minimize([0] * n + [-1])
    if s == 'optimal':
        return 'radius', float(-v)
    return ('infinite' if s == 'unbounded' else 'infeasible'), None


def judge_chebyshev(p, ineqs, eqs, n, ctx, order=('radius', 'center'), tol=1.e-6):
    """Queries radius / center of the real object in the given order and compares with the exact answer."""
    ch = chebyshev(n, ineqs, eqs)
    if ch is None:
        ctx.skip('dependent equalities')
        return
    got = {}
    for k in order:
        got[k] = getattr(p, k)
        ctx.step()
    if ch[0] == 'infinite':
        ctx.outcome('infinite')
        need(all(v is None for v in got.values()), 'balls of any radius fit, but the code returned %r', got)
        return
    if ch[0] == 'infeasible':
        # no radius makes this feasible: the convention (negative or None) is not documented for this case
        ctx.outcome('infeasible')
        need(got.get('radius') is None or got['radius'] < 0., 'radius %r of a polyhedron with an unsatisfiable row', got.get('radius'))
        return
    r = ch[1]
    ctx.outcome('empty' if r < -1e-7 else ('flat' if r < 1e-7 else 'solid'))
    sc = 1. + abs(r)
    if 'radius' in got:
        need(got['radius'] is not None, 'radius is None, the Chebyshev radius is %g', r)
        need(abs(float(got['radius']) - r) <= tol * sc, 'radius is %r, the Chebyshev radius is %.9g', got['radius'], r)
    if 'center' in got:
        c = got['center']
        need(c is not None, 'center is None, the Chebyshev radius is %g', r)
        c = np.asarray(c, dtype=float)
        need(c.shape == (n,), 'center has shape %s', c.shape)
        mag = sc + np.abs(c).max()
        for (a, b), w in zip(ineqs, in_plane_norms(ineqs, eqs)):
            need(float(dot([float(t) for t in a], c)) + w * r - float(b) <= tol * mag, 'the ball of radius %g around center %r violates %r x <= %r', r, c.tolist(), a, b)
        for e, d in eqs:
            need(abs(float(dot([float(t) for t in e], c)) - float(d)) <= tol * mag, 'center %r violates %r x == %r', c.tolist(), e, d)


def judge_vertices(p, ineqs, eqs, n, r, ctx, tol=1.e-6):
    """Queries vertices of the real object: exact vertex set, or None for unbounded / empty / flat sets."""
    if eqs and (rank([list(c) for c, _ in eqs]) < len(eqs) or len(eqs) >= n):
        ctx.skip('equalities dependent or without nullspace')
        return
    if not r.bounded or r.empty:
        ctx.outcome('no-vertices')
        v = p.vertices
        ctx.step()
        need(v is None, 'vertices of an %s polyhedron: %r', 'empty' if r.empty else 'unbounded', v)
        return
    rad = chebyshev(n, ineqs, eqs)[1]
    if 1e-9 < rad < 1e-5:
        ctx.skip('too thin to call')
        return
    v = p.vertices
    ctx.step()
    if rad <= 1e-9:
        ctx.outcome('flat')
        need(v is None, 'vertices of a set without interior: %r', v)
        return
    ctx.outcome('vertices')
    need(v is not None, 'vertices is None for a bounded polyhedron with radius %g', rad)
    same_points(v, r.vertices(), tol)


WARM = [('vertices',), ('empty', 'bounded'), ('radius',), ('center', 'vertices', 'empty'), ('bounded', 'vertices'), ('minimal_facets', 'radius'), ('vertices', 'center', 'bounded', 'empty')]


def warm(p, eqs, n, k):
    """Asks cached questions of a polyhedron first: the k-th combination of WARM (anything remembered wrongly shows later)."""
    ok = not eqs or (len(eqs) < n and rank([list(c) for c, _ in eqs]) == len(eqs))
    for q in WARM[k % len(WARM)]:
        if q in ('empty', 'bounded'):
            getattr(p, q)
        elif ok and q == 'minimal_facets':
            p.minimal_facets()
        elif ok:
            getattr(p, q)
    return p


def mix(case):
    """Deterministic small number attached to a case (to cycle through variants)."""
    h = 7
    for c in repr(case):
        h = (h * 31 + ord(c)) % 1000003
    return h
