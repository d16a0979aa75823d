"""
C18: piecewise-affine systems.  Modes on full grids of state-input pairs, all input sequences up to the bound (with every
permissible resolution of ties on shared boundaries), and well-posedness of every list of domains from finite pools.
"""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Cases, need
from ..ref import Poly, dot, matvec
from .. import poly
from .c01 import box

G = 2. ** -15
TOL = 1.e-7


def half(n, i, s, t):
    """s x_i <= t."""
    return (tuple(s * int(i == j) for j in range(n)), t)


def systems():
    """name, nx, nu, [(A, B, c)], [(ineqs, eqs)], grid of states, grid of inputs."""
    out = []
    # one state, split at 0, bounded inputs
    d1 = [([half(2, 0, 1, 0), half(2, 0, -1, 2), half(2, 1, 1, 1), half(2, 1, -1, 1)], []),
          ([half(2, 0, -1, 0), half(2, 0, 1, 2), half(2, 1, 1, 1), half(2, 1, -1, 1)], [])]
    m1 = [([[1]], [[1]], [1]), ([[-.5]], [[1]], [-.25])]
    out.append(('split', 1, 1, m1, d1))
    out.append(('split-reversed', 1, 1, m1[::-1], d1[::-1]))
    # a gap between the domains, and a domain of its own input range
    d2 = [([half(2, 0, 1, -.5), half(2, 0, -1, 2)], []), ([half(2, 0, -1, -.5), half(2, 0, 1, 1), half(2, 1, -1, 0)], []), ([half(2, 0, -1, -1), half(2, 0, 1, 2), half(2, 1, 1, .5)], [])]
    out.append(('gap', 1, 1, [([[1]], [[.5]], [0]), ([[.5]], [[-1]], [.25]), ([[-1]], [[1]], [0])], d2))
    # overlapping domains
    d3 = [([half(2, 0, 1, 1)], []), ([half(2, 0, -1, 1)], []), ([((1, 1), 3), ((-1, -1), 3)], [])]
    out.append(('overlap', 1, 1, [([[.5]], [[1]], [1]), ([[1]], [[0]], [-1]), ([[2]], [[-1]], [0])], d3))
    # guards that mix state and input
    d4 = [([((1, 1), 0), half(2, 0, -1, 2)], []), ([((-1, -1), 0), half(2, 0, 1, 2)], [])]
    out.append(('diagonal', 1, 1, [([[1]], [[1]], [.5]), ([[-1]], [[.5]], [.25])], d4))
    # two states, one input, four modes (quadrants), all different dynamics
    quad = []
    dyn = []
    for k, (s, t) in enumerate(itertools.product((1, -1), repeat=2)):
        quad.append(([half(3, 0, s, 0), half(3, 1, t, 0), half(3, 0, -s, 2), half(3, 1, -t, 2), half(3, 2, 1, 1), half(3, 2, -1, 1)], []))
        dyn.append(([[[0, 1], [-1, 0]], [[.5, 0], [.5, -1]], [[0, -1], [1, .5]], [[1, .5], [0, 1]]][k], [[[1], [0]], [[0], [1]], [[1], [-1]], [[.5], [.5]]][k], [[0, 0], [.25, 0], [0, -.25], [-.5, .5]][k]))
    out.append(('quadrants', 2, 1, dyn, quad))
    # two inputs, three modes along an input-dependent guard
    d6 = [([((1, 1, 0), -.5), half(3, 0, -1, 3)], []), ([((1, 0, 1), 1), ((-1, -1, 0), .5)], []), ([((-1, 0, -1), -1), ((-1, -1, 0), .5), half(3, 0, 1, 3)], [])]
    out.append(('two-inputs', 1, 2, [([[1]], [[1, 0]], [0]), ([[.5]], [[0, 1]], [-.5]), ([[-1]], [[1, -1]], [1])], d6))
    # domains restricted by equalities
    d7 = [([half(2, 0, 1, 0), half(2, 0, -1, 2)], [((0, 1), 0)]), ([half(2, 0, -1, 0), half(2, 0, 1, 2)], [((1, 1), 1)]), ([half(2, 0, 1, 2)], [((1, 0), -1), ((0, 1), 1)])]
    out.append(('equalities', 1, 1, [([[1]], [[1]], [.5]), ([[-1]], [[1]], [0]), ([[0]], [[1]], [1])], d7))
    # one mode only; mode without inequalities
    out.append(('single', 1, 1, [([[2]], [[1]], [0])], [(box(2, -1, 1), [])]))
    out.append(('everything', 1, 1, [([[2]], [[1]], [1]), ([[-1]], [[1]], [0])], [([half(2, 0, 1, 0)], []), ([((0, 0), 0)], [])]))
    return out


SYS = systems()


def make(s, dtype=float, linear=False):
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    _, nx, nu, modes, doms = s
    aff = []
    for A, B, c in modes:
        A, B, c = np.array(A, dtype=float), np.array(B, dtype=float), np.array(c, dtype=float)
        aff.append(LinearSystem(A, B) if linear and not c.any() else AffineSystem(A, B, c))
    return PieceWiseAffineSystem(aff, [poly.real(i, e, nx + nu) for i, e in doms])


def inside(doms, k, xu):
    """True / False / None: exact membership, None if the distance to the boundary of the set is within the tolerance."""
    ineqs, eqs = doms[k]
    m = max([float(dot(a, xu) - b) for a, b in ineqs] + [abs(float(dot(c, xu) - d)) for c, d in eqs] + [-1.])
    if m <= 0.:
        return True
    return False if m > 10 * TOL else None


def permissible(doms, xu):
    """Modes that may be reported, and whether None may be."""
    ins = [inside(doms, k, xu) for k in range(len(doms))]
    may = [k for k, v in enumerate(ins) if v is not False]
    return may, not any(v is True for v in ins)


def gen_mode(tier):
    offs = (-2 - G, -2, -1, -.5 - G, -.5, -G, 0, G, .5, .5 + G, 1, 1 + G, 2, 2 + G)
    if tier == 'thorough':
        offs = offs + (-3, -1 - G, -2 + G, 1 - G, .25, 3, -.25)
    small = (-1 - G, -1, -G, 0, G, .5, 1, 1 + G)
    for k, s in enumerate(SYS):
        n = s[1] + s[2]
        for p in itertools.product(*[offs if (i < s[1] or n < 3) and n < 4 else small for i in range(n)]):
            yield [k, list(p)]


def check_mode(case, ctx):
    k, p = case
    s = SYS[k]
    S = make(s)
    ctx.state()
    ctx.step()
    x, u = np.array(p[:s[1]], dtype=float), np.array(p[s[1]:], dtype=float)
    m = S.get_mode(x, u)
    may, none = permissible(s[4], [Fraction(v) for v in p])
    ctx.outcome('none' if m is None else 'mode')
    if m is None:
        need(none, '(x,u)=%r is in domain %r, but no mode is reported', p, may)
    else:
        need(int(m) == m and m in may, '(x,u)=%r: reported mode %r does not contain it (%r do)', p, m, may)
    if all(v == int(v) for v in p[:s[1]]) or all(v == int(v) for v in p[s[1]:]):
        # integer arrays for the state, the input, or both
        for tx in (int, float):
            for tu in (int, float):
                if tx is tu is float or (tx is int and any(v != int(v) for v in p[:s[1]])) or (tu is int and any(v != int(v) for v in p[s[1]:])):
                    continue
                m2 = S.get_mode(np.array(p[:s[1]], dtype=tx), np.array(p[s[1]:], dtype=tu))
                need(m2 == m or (m2 is not None and m2 in may) or (m2 is None and none), '(x,u)=%r given as %s and %s: mode %r, with floats %r', p, tx.__name__, tu.__name__, m2, m)
                ctx.step()
    # reported twice the same
    need(S.get_mode(x, u) == m, 'second query differs')


def step(s, k, x, u):
    A, B, c = s[3][k]
    return tuple(sum(Fraction(v) * w for v, w in zip(r, x)) + sum(Fraction(v) * w for v, w in zip(q, u)) + Fraction(t) for r, q, t in zip(A, B, c))


def may_fail(s, x0, useq):
    """Can a permissible trajectory leave all the domains?  (breadth first over the reachable states)"""
    layer = {tuple(x0)}
    for u in useq:
        nxt = set()
        for x in layer:
            may, none = permissible(s[4], list(x) + list(u))
            if none:
                return True
            nxt |= {step(s, k, x, u) for k in may}
        layer = nxt
    return False


def gen_sim(tier):
    for k, s in enumerate(SYS):
        nx, nu = s[1], s[2]
        uv = list(itertools.product((-1, -.5, 0, .5, 1) if nu == 1 and nx == 1 else (-1, 0, .5), repeat=nu))
        xs = list(itertools.product((-2, -1, -.5, 0, .75, 2) if nx == 1 else (-1.5, -.5, 0, 1), repeat=nx))
        N = 5 if nx == 1 and nu == 1 else 4
        if tier == 'thorough':
            N += 1
        for x0 in xs:
            for n in range(0, N):
                for useq in itertools.product(uv, repeat=n):
                    yield [k, list(x0), [list(u) for u in useq]]
        # slightly off the guards: the last or the first input misses by 2^-12 or 2^-8
        for x0 in xs[::2]:
            for useq in itertools.product(uv, repeat=3):
                for g in (G, -G, 2. ** -8, -2. ** -8):
                    for pos in (0, 2):
                        yield [k, list(x0), [[v + (g if t == pos else 0) for v in u] for t, u in enumerate(useq)]]
        # long runs with repeated inputs
        for x0 in xs:
            for a, b in itertools.product(uv, repeat=2):
                yield [k, list(x0), [list(a if t % 2 else b) for t in range(12)]]


def check_sim(case, ctx):
    k, x0, useq = case
    s = SYS[k]
    S = make(s, linear=len(useq) % 2 == 1)
    ctx.state()
    fx0 = [Fraction(v) for v in x0]
    fu = [[Fraction(v) for v in u] for u in useq]
    x0a = np.array(x0, dtype=float)
    us = [np.array(u, dtype=float) for u in useq]
    ctx.step()
    try:
        x, z = S.simulate(x0a, us)
    except ValueError:
        ctx.outcome('error')
        need(may_fail(s, fx0, fu), 'ValueError on a simulation that never leaves the domains: %r', case)
        return
    ctx.outcome('trajectory')
    need(len(x) == len(useq) + 1 and len(z) == len(useq), '%d states and %d modes for %d inputs', len(x), len(z), len(useq))
    w = tuple(fx0)
    for t in range(len(useq) + 1):
        wf = np.array([float(e) for e in w])
        need(np.shape(x[t]) == wf.shape and np.abs(x[t] - wf).max() <= 1e-9 * (1 + np.abs(wf).max()), 'state %d is %r, expected %r', t, np.asarray(x[t]).tolist(), wf.tolist())
        if t < len(useq):
            may, _ = permissible(s[4], list(w) + fu[t])
            need(z[t] in may, 'mode %r at step %d, but (x,u)=%r is in the domains %r%s', z[t], t, wf.tolist() + useq[t], may, '' if may else ' (must raise ValueError)')
            w = step(s, z[t], w, fu[t])
    ctx.step(len(useq))


# -- well-posedness ---------------------------------------------------------------------------------------------------------

def pool(n):
    D = []
    if n == 1:
        for lo, hi in [(-1, 0), (0, 1), (1, 2), (-1, 1), (0, 0), (0, .5), (-G, 1), (G, 1), (2, 1), (.5, 2), (0, 1e-9)]:
            D.append([half(1, 0, -1, -lo), half(1, 0, 1, hi)])
        D += [[half(1, 0, 1, 0)], [half(1, 0, -1, 0)], [half(1, 0, -1, -1)], [half(1, 0, 1, -G)], [half(1, 0, 1, G)]]
        return D
    if n == 2:
        iv = [(-1, 0), (0, 1), (-G, 1), (G, 1), (-1, 1)]
        for a in iv:
            for b in iv:
                D.append([half(2, 0, -1, -a[0]), half(2, 0, 1, a[1]), half(2, 1, -1, -b[0]), half(2, 1, 1, b[1])])
        for a in [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (1, -1), (2, 1), (-2, -1)]:
            for t in (0, -1, G, -G):
                D.append([(a, t)])
        D.append([((1, 0), 0), ((0, 1), 0)])
        D.append([((-1, 0), 0), ((0, 1), 0)])
        D.append([((-1, 0), 0), ((0, -1), 0), ((1, 1), 1)])
        D.append([((1, 0), 1), ((0, 1), 1), ((-1, -1), -1)])
        D.append([((1, 0), -1), ((-1, 0), 0)])
        D.append([((1, -1), 0), ((-1, 1), 0)])
        return D
    b = box(3, 0, 1)
    D.append(b)
    for i in range(3):
        for lo, hi in ((1, 2), (1 - G, 2), (1 + G, 2), (-1, 0)):
            c = [r for r in b if r[0][i] == 0] + [half(3, i, -1, -lo), half(3, i, 1, hi)]
            D.append(c)
    for a in [(1, 1, 1), (-1, -1, -1), (1, 0, -1), (1, 0, 0), (-1, 0, 0)]:
        for t in (0, 1, 3, -3):
            D.append([(a, t)])
            D.append(b + [(a, t)])
    return D


POOL = {n: pool(n) for n in (1, 2, 3)}


def gen_well(tier):
    for n in (1, 2, 3):
        N = len(POOL[n])
        for i in range(N):
            yield [n, [i], None]
            for j in range(N):
                if n == 3 and i > j:
                    continue
                yield [n, [i, j], None]
                if (i + j) % (7 if tier == 'quick' else 2) == 0:
                    yield [n, [i, j], .125]
                    yield [n, [i, j], 2. ** -16]
    # triples and quadruples: the overlapping pair anywhere in the list
    for n in (1, 2):
        base = [0, 1, 2] if n == 1 else [0, 6, 27]
        for i, j in itertools.combinations(range(len(POOL[n])), 2):
            for pos in range(3):
                l = [i, j]
                l.insert(pos, base[0])
                yield [n, l, None]
    # chains of m unit intervals / slabs, one further domain that overlaps exactly one of them (or none), at every position
    for m in (3, 4, 5, 6):
        for n in (1, 2, 3):
            for t in list(range(m)) + [None]:
                for pos in range(m + 1):
                    yield ['chain', [n, m, t, pos], None]
    cells = [[0, 1], [1, 0], [1, 1], [0, 0]]
    for perm in itertools.permutations(range(4)):
        yield ['cells', list(perm), None]
        for k in range(4):
            yield ['cells-grown', list(perm) + [k], None]


def doms_of(case):
    n, idx, _ = case
    if n == 'chain':
        n, m, t, pos = idx
        side = [half(n, j, s, 1) for j in range(1, n) for s in (1, -1)]
        out = [[half(n, 0, -1, -i), half(n, 0, 1, i + 1)] + side for i in range(m)]
        a, b = (t + .25, t + .75) if t is not None else (-3, -2)
        out.insert(pos, [half(n, 0, -1, -a), half(n, 0, 1, b)] + side)
        return n, out
    if n in ('cells', 'cells-grown'):
        g = G if n == 'cells-grown' else 0
        grow = idx[4] if g else None
        out = []
        for c in idx[:4]:
            a, b = c // 2, c % 2
            e = g if c == grow else 0
            out.append([half(2, 0, -1, -a + e), half(2, 0, 1, a + 1 + e), half(2, 1, -1, -b + e), half(2, 1, 1, b + 1 + e)])
        return 2, out
    return n, [POOL[n][i] for i in idx]


def check_well(case, ctx):
    from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem
    n, doms = doms_of(case)
    tol = case[2]
    ctx.state()
    worst = -1.
    for a, b in itertools.combinations(doms, 2):
        ch = poly.chebyshev(n, a + b, [])
        if ch[0] == 'infinite':
            worst = float('inf')
        elif ch[0] == 'radius':
            worst = max(worst, ch[1])
    t = 1e-7 if tol is None else tol
    if abs(worst - t) < 5e-7 and worst > 1e-12:
        ctx.skip('overlap equal to the tolerance')
        return
    nx = max(1, n - 1) if n > 1 else 1
    nu = n - nx
    S = [AffineSystem(np.eye(nx), np.ones((nx, nu)), np.zeros(nx)) for _ in doms]
    pwa = PieceWiseAffineSystem(S, [poly.real(d, [], n) for d in doms])
    w = pwa.is_well_posed() if tol is None else pwa.is_well_posed(tol)
    ctx.step()
    ctx.outcome('well-posed' if worst <= t else 'overlapping')
    need(bool(w) == (worst <= t), 'is_well_posed is %r, the largest ball in an intersection has radius %g', w, worst)
    # asking other things first does not change the answer
    for D in pwa.domains:
        D.empty, D.bounded, D.radius
    w = pwa.is_well_posed() if tol is None else pwa.is_well_posed(tol=tol)
    need(bool(w) == (worst <= t), 'is_well_posed (asked again) is %r, the largest ball in an intersection has radius %g', w, worst)
    ctx.step()


LAYERS = [Cases('mode', gen_mode, check_mode, '10 PWA systems (gaps, overlaps, shared boundaries, equalities, mixed guards) x full grids of state-input pairs with points 2^-12 off every guard'),
          Cases('simulate', gen_sim, check_sim, 'the same systems x grids of initial states x all input sequences up to length 3..4 (thorough 4..5) and 12-step runs; all resolutions of ties on boundaries are permitted'),
          Cases('well-posed', gen_well, check_well, 'all pairs of 17 / 67 / 53 domains in dimension 1 / 2 / 3, triples with the overlapping pair in every position, permuted cells with one cell grown by 2^-12; default and explicit tolerances')]


# -- far from the origin ------------------------------------------------------------------------------------------------------

def shifted(s, sx, su):
    """The same system in coordinates (x - sx, u - su)."""
    name, nx, nu, modes, doms = s
    F = Fraction
    w = [F(sx) * (1 if i % 2 == 0 else -1) for i in range(nx)] + [F(su)] * nu
    out = []
    for A, B, c in modes:
        out.append((A, B, [F(t) + w[i] - sum(F(v) * z for v, z in zip(A[i], w[:nx])) - sum(F(v) * z for v, z in zip(B[i], w[nx:])) for i, t in enumerate(c)]))
    move = lambda rows: [(a, b + sum(F(v) * z for v, z in zip(a, w))) for a, b in rows]
    return (name, nx, nu, out, [(move(i), move(e)) for i, e in doms]), w


def gen_far(tier):
    shifts = ((2 ** 10, 0), (2 ** 13, 2 ** 6), (-2 ** 13, 2 ** 13)) if tier == 'quick' else ((2 ** 6, 0), (2 ** 10, 0), (2 ** 13, 2 ** 6), (-2 ** 13, 2 ** 13), (0, 2 ** 13))
    for k, s in enumerate(SYS):
        n = s[1] + s[2]
        offs = (-2 - G, -2, -G, 0, G, .5, .5 + G, 1, 1 + G, 2 + G) if n < 3 else (-1 - G, -G, 0, G, 1, 1 + G)
        for sh in shifts:
            for p in itertools.product(offs, repeat=n):
                yield [k, sh[0], sh[1], list(p)]


def check_far(case, ctx):
    k, sx, su, p = case
    s, w = shifted(SYS[k], sx, su)
    S = make(s)
    ctx.state()
    ctx.step()
    q = [Fraction(v) + z for v, z in zip(p, w)]
    qf = np.array([float(v) for v in q])
    x, u = qf[:s[1]], qf[s[1]:]
    m = S.get_mode(x, u)
    may, none = permissible(s[4], q)
    ctx.outcome('none' if m is None else 'mode')
    if m is None:
        need(none, '(x,u)=%r is in domain %r, but no mode is reported', qf.tolist(), may)
    else:
        need(int(m) == m and m in may, '(x,u)=%r: reported mode %r does not contain it (%r do)', qf.tolist(), m, may)
    # one step (twice the same input, if the domains allow it)
    fu = [q[s[1]:]] * 2
    try:
        X, Z = S.simulate(x, [u, u.copy()])
    except ValueError:
        need(may_fail(s, q[:s[1]], fu), 'ValueError on a simulation that never leaves the domains: %r', case)
        return
    ctx.step(2)
    y = tuple(q[:s[1]])
    for t in range(2):
        may, _ = permissible(s[4], list(y) + fu[t])
        need(Z[t] in may, 'mode %r at step %d, but (x,u)=%r is in the domains %r', Z[t], t, [float(v) for v in y] + u.tolist(), may)
        y = step(s, Z[t], y, fu[t])
        yf = np.array([float(v) for v in y])
        need(np.abs(X[t + 1] - yf).max() <= 1e-11 * (1 + np.abs(yf).max()), 'state %d is %r, expected %r', t + 1, X[t + 1].tolist(), yf.tolist())


LAYERS.append(Cases('far', gen_far, check_far, 'the same systems moved up to 2^13 away from the origin, points 2^-12 off the guards, two steps'))


# -- many modes ------------------------------------------------------------------------------------------------------------------

def gen_many(tier):
    for K in (5, 12, 20) if tier == 'quick' else (5, 8, 12, 20, 33):
        for k in (1, 3, 7):
            yield [K, k]


def check_many(case, ctx):
    """K cells in a row, in permuted order; then one of them grown into its neighbour, or shrunk away from it."""
    from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    from ..ngon import shuffle
    K, k = case
    order = shuffle(list(range(K)), k)
    aff = [AffineSystem(np.array([[.5]]), np.array([[1.]]), np.array([float(c % 3)])) for c in order]
    cell = lambda c, g=0., h=0.: Polyhedron.from_bounds(np.array([c + h, -1.]), np.array([c + 1. + g, 1.]))
    S = PieceWiseAffineSystem(aff, [cell(c) for c in order])
    ctx.state()
    for c in range(K):
        for off in (G, .5, 1 - G):
            for u in (-1., 0., 1.):
                m = S.get_mode(np.array([c + off]), np.array([u]))
                need(m is not None and order[int(m)] == c, '(x,u)=%r: mode %r, it is in cell %d, order %r', (c + off, u), m, c, order)
                ctx.step()
            need(S.get_mode(np.array([c + off]), np.array([1 + G])) is None, 'a mode for an input outside all domains')
        x, z = S.simulate(np.array([c + .5]), [np.array([1.])])
        need(order[z[0]] == c and x[1][0] == .5 * (c + .5) + 1. + c % 3, 'step from cell %d: %r %r', c, x, z)
    need(S.get_mode(np.array([K + G]), np.zeros(1)) is None and S.get_mode(np.array([-G]), np.zeros(1)) is None, 'a mode outside all domains')
    need(S.is_well_posed(), 'cells that only touch are not well posed')
    ctx.step(3)
    for c in range(K - 1) if K <= 12 else (0, K // 2, K - 2):
        T = PieceWiseAffineSystem(aff, [cell(o, 2. ** -8 if o == c else 0.) for o in order])
        need(not T.is_well_posed(), 'cell %d of %d overlaps its neighbour by 2^-8, but the system is well posed (order %r)', c, K, order)
        T = PieceWiseAffineSystem(aff, [cell(o, 0., 2. ** -8 if o == c else 0.) for o in order])
        need(T.is_well_posed(), 'cell %d of %d does not reach its neighbour, but the system is not well posed', c, K)
        need(T.get_mode(np.array([c + 2. ** -9]), np.zeros(1)) is None, 'a mode in a gap')
        ctx.step(3)
    ctx.outcome('%d modes' % K)


LAYERS.append(Cases('many', gen_many, check_many, '5..20 (thorough 33) cells in a row in permuted order; every cell in turn grown or shrunk by 2^-8', time_limit=120.))
