"""
C17: the condensed form x_bar = A_bar x0 + B_bar u_bar + c_bar and the simulators produce exactly the trajectory of the
recursion x(t+1) = A_z x(t) + B_z u(t) + c_z, for every mode sequence up to the bound.
"""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Cases, need
from ..ref import dot, matvec


def mats(nx, nu, m):
    """Integer dynamics of mode m (non-commuting, singular and nonsingular)."""
    A = [[((i * 3 + j * 5 + 7 * m + i * j) % 5) - 2 for j in range(nx)] for i in range(nx)]
    B = [[((i * 2 + j * 3 + m) % 4) - 1 for j in range(nu)] for i in range(nx)]
    c = [((i + 2 * m) % 3) - (1 if m % 2 else 0) for i in range(nx)]
    return A, B, c


def traj(modes, seq, x0, u):
    x = [list(x0)]
    for z, v in zip(seq, u):
        A, B, c = modes[z]
        x.append([p + q + r for p, q, r in zip(matvec(A, x[-1]), matvec(B, v), c)])
    return x


def columns(modes, seq, nx, nu):
    """Exact A_bar, B_bar, c_bar from the recursion, column by column."""
    N = len(seq)
    zero_u = [[0] * nu for _ in range(N)]
    flat = lambda x: [t for xt in x for t in xt]
    c_bar = flat(traj(modes, seq, [0] * nx, zero_u))
    A_bar = [[p - q for p, q in zip(flat(traj(modes, seq, [int(i == k) for i in range(nx)], zero_u)), c_bar)] for k in range(nx)]
    B_bar = []
    for t in range(N):
        for k in range(nu):
            u = [[int(s == t and i == k) for i in range(nu)] for s in range(N)]
            B_bar.append([p - q for p, q in zip(flat(traj(modes, seq, [0] * nx, u)), c_bar)])
    return np.array(A_bar, dtype=float).T, np.array(B_bar, dtype=float).T, np.array(c_bar, dtype=float)


def close(got, exp, what):
    got = np.asarray(got, dtype=float)
    need(got.shape == exp.shape, '%s has shape %s, expected %s', what, got.shape, exp.shape)
    need(np.abs(got - exp).max(initial=0.) <= 1.e-9 * (1. + np.abs(exp).max(initial=0.)), '%s is %r, expected %r', what, got.tolist(), exp.tolist())


def gen(tier):
    for nx, nu, nm, nmax in [(1, 1, 1, 6), (1, 1, 2, 5), (1, 1, 3, 4), (2, 1, 1, 8), (2, 1, 2, 6), (2, 2, 2, 4), (2, 1, 3, 4), (2, 1, 4, 3), (3, 2, 3, 3), (3, 1, 2, 4), (4, 3, 2, 3), (5, 1, 1, 5)]:
        if tier == 'thorough':
            nmax += 2
        for N in range(1, nmax + 1):
            for seq in itertools.product(range(nm), repeat=N):
                yield [nx, nu, nm, list(seq)]


def check(case, ctx):
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    nx, nu, nm, seq = case
    N = len(seq)
    modes = [mats(nx, nu, m) for m in range(nm)]
    ctx.state()
    S = [AffineSystem(*[np.array(M, dtype=float) for M in md]) for md in modes]
    A_bar, B_bar, c_bar = columns(modes, seq, nx, nu)
    dom = [Polyhedron(np.zeros((0, nx + nu)), np.zeros(0)) for _ in S]
    P = PieceWiseAffineSystem(S, dom)
    got = P.condense(list(seq))
    for g, e, w in zip(got, (A_bar, B_bar, c_bar), ('A_bar', 'B_bar', 'c_bar')):
        close(g, e, 'condensed %s of the mode sequence %r' % (w, seq))
    ctx.step()
    ctx.outcome('modes %d' % len(set(seq)))
    if len(set(seq)) == 1:
        Z = S[seq[0]]
        for g, e, w in zip(Z.condense(N), (A_bar, B_bar, c_bar), ('A_bar', 'B_bar', 'c_bar')):
            close(g, e, 'affine condense: ' + w)
        A, B, c = modes[seq[0]]
        L = LinearSystem(np.array(A, dtype=float), np.array(B, dtype=float))
        la = columns([(A, B, [0] * nx)], [0] * N, nx, nu)
        g = L.condense(N)
        close(g[0], la[0], 'linear condense: A_bar')
        close(g[1], la[1], 'linear condense: B_bar')
        x0 = [(-1) ** i * (i + 1) for i in range(nx)]
        u = [[((t + 2 * i) % 3) - 1 for i in range(nu)] for t in range(N)]
        for sys, md in ((Z, modes[seq[0]]), (L, (A, B, [0] * nx))):
            for k in range(N + 1):
                xs = sys.simulate(np.array(x0, dtype=float), [np.array(v, dtype=float) for v in u[:k]])
                need(len(xs) == k + 1, '%d states for %d inputs', len(xs), k)
                ex = traj([md], [0] * k, x0, u[:k])
                for s, t in zip(xs, ex):
                    close(s, np.array(t, dtype=float), 'simulated state')
                ctx.step()
        K = [[((i + j) % 2) - (1 if j == 0 else 0) for j in range(nx)] for i in range(nu)]
        xs = L.simulate_closed_loop(np.array(x0, dtype=float), N, np.array(K, dtype=float))
        need(len(xs) == N + 1, '%d states for %d closed-loop steps', len(xs), N)
        x = list(x0)
        for t in range(N + 1):
            close(xs[t], np.array(x, dtype=float), 'closed-loop state %d' % t)
            uu = matvec(K, x)
            x = [p + q for p, q in zip(matvec(A, x), matvec(B, uu))]
        ctx.step(4)


def gen_mixed(tier):
    """Modes of the PWA system given as a mixture of linear and affine systems."""
    for kinds in itertools.product('LA', repeat=3):
        for N in range(1, 4 if tier == 'quick' else 6):
            for seq in itertools.product(range(3), repeat=N):
                yield [list(kinds), list(seq)]


def check_mixed(case, ctx):
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    kinds, seq = case
    nx, nu = 2, 1
    modes, S = [], []
    for m, k in enumerate(kinds):
        A, B, c = mats(nx, nu, m)
        c = [1 + m, -2] if k == 'A' else [0, 0]
        modes.append((A, B, c))
        ar = [np.array(M, dtype=float) for M in (A, B, c)]
        S.append(AffineSystem(*ar) if k == 'A' else LinearSystem(*ar[:2]))
    P = PieceWiseAffineSystem(S, [Polyhedron(np.zeros((0, 3)), np.zeros(0))] * 3)
    ctx.state()
    for g, e, w in zip(P.condense(seq), columns(modes, seq, nx, nu), ('A_bar', 'B_bar', 'c_bar')):
        close(g, e, 'condensed %s' % w)
    need((P.nx, P.nu, P.nm) == (2, 1, 3), 'sizes %r', (P.nx, P.nu, P.nm))
    ctx.step()
    ctx.outcome(''.join(kinds))


LAYERS = [Cases('condense', gen, check, 'all mode sequences of length 1..8 (shape dependent; thorough +2) for 1..5 states, 1..3 inputs, 1..4 modes; simulation of every prefix'),
          Cases('mixed-modes', gen_mixed, check_mixed, 'all mixtures of linear and affine modes (3 modes) x all mode sequences up to length 3 (thorough 5)')]


def half_mats(nx, nu, m):
    """The same dynamics over quarters: long horizons stay exactly representable."""
    A, B, c = mats(nx, nu, m)
    return [[v / 2. for v in r] for r in A], [[v / 4. for v in r] for r in B], [v / 2. for v in c]


def gen_long(tier):
    """Long horizons: periodic, blockwise, aperiodic (Thue-Morse, quadratic) mode sequences, one late switch."""
    for nx, nu, nm in ((1, 1, 1), (1, 1, 2), (2, 1, 2), (2, 2, 3), (3, 1, 2)):
        for N in (7, 8, 9, 10, 12, 16, 17, 20, 25, 33) if tier == 'quick' else tuple(range(6, 34)) + (40, 50, 64):
            if nx * N > 70:
                continue
            seqs = [[t % nm for t in range(N)], [(t // 3) % nm for t in range(N)], [bin(t).count('1') % nm for t in range(N)], [(t * t + t // 2) % nm for t in range(N)],
                    [0] * (N - 1) + [nm - 1], [nm - 1] + [0] * (N - 1), [0] * (N // 2) + [nm - 1] * (N - N // 2)]
            for i, q in enumerate(seqs):
                if q not in seqs[:i]:
                    yield [nx, nu, nm, q]


def check_long(case, ctx):
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    nx, nu, nm, seq = case
    N = len(seq)
    modes = [half_mats(nx, nu, m) for m in range(nm)]
    ctx.state()
    S = [AffineSystem(*[np.array(M, dtype=float) for M in md]) for md in modes]
    P = PieceWiseAffineSystem(S, [Polyhedron(np.zeros((0, nx + nu)), np.zeros(0)) for _ in S])
    for g, e, w in zip(P.condense(list(seq)), columns(modes, seq, nx, nu), ('A_bar', 'B_bar', 'c_bar')):
        close(g, e, 'condensed %s of a mode sequence of length %d' % (w, N))
    ctx.step()
    ctx.outcome('modes %d' % len(set(seq)))
    if len(set(seq)) == 1:
        A, B, c = modes[seq[0]]
        L = LinearSystem(np.array(A), np.array(B))
        for g, e in zip(L.condense(N)[:2], columns([(A, B, [0] * nx)], [0] * N, nx, nu)):
            close(g, e, 'linear condense over %d steps' % N)
        for sys, md in ((S[seq[0]], modes[seq[0]]), (L, (A, B, [0] * nx))):
            x0 = [1.5 - i for i in range(nx)]
            u = [[((t + 2 * i) % 5) / 4. - .5 for i in range(nu)] for t in range(N)]
            for s, t in zip(sys.simulate(np.array(x0), [np.array(v) for v in u]), traj([md], [0] * N, x0, u)):
                close(s, np.array(t), 'simulated state')
            ctx.step()
        K = [[.25 - .5 * ((i + j) % 2) for j in range(nx)] for i in range(nu)]
        x = [1.5 - i for i in range(nx)]
        for t, s in enumerate(L.simulate_closed_loop(np.array(x), N, np.array(K))):
            close(s, np.array(x), 'closed-loop state %d' % t)
            uu = matvec(K, x)
            x = [p + q for p, q in zip(matvec(A, x), matvec(B, uu))]
        ctx.step(2)


def gen_types(tier):
    """[nx, nu, mask, N]: bit k set: A, B, c, x0, u, K hold fractions (float arrays), otherwise integers (integer arrays)."""
    for nx, nu in ((1, 1), (2, 1), (2, 2)):
        for mask in range(64):
            for N in (1, 3):
                yield [nx, nu, mask, N]


def check_types(case, ctx):
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    nx, nu, mask, N = case
    on = [bool(mask >> k & 1) for k in range(6)]
    ty = [float if o else int for o in on]
    A, B, c = mats(nx, nu, 1)
    A = [[v + (.25 if on[0] else 0) for v in r] for r in A]
    B = [[v + (.5 if on[1] else 0) for v in r] for r in B]
    c = [v + (.375 if on[2] else 0) for v in c]
    x0 = [(-1) ** i * (i + 1) + (.625 if on[3] else 0) for i in range(nx)]
    u = [[((t + 2 * i) % 3) - 1 + (.75 if on[4] else 0) for i in range(nu)] for t in range(N)]
    K = [[((i + j) % 2) - 1 + (.125 if on[5] else 0) for j in range(nx)] for i in range(nu)]
    aA, aB, ac, ax, aK = [np.array(M, dtype=t) for M, t in zip((A, B, c, x0, K), (ty[0], ty[1], ty[2], ty[3], ty[5]))]
    au = [np.array(v, dtype=ty[4]) for v in u]
    ctx.state()
    S, L = AffineSystem(aA, aB, ac), LinearSystem(aA, aB)
    P = PieceWiseAffineSystem([S, L], [Polyhedron(np.zeros((0, nx + nu)), np.zeros(0)) for _ in range(2)])
    modes = [(A, B, c), (A, B, [0] * nx)]
    for k, sys in enumerate((S, L)):
        for s, t in zip(sys.simulate(ax, au), traj(modes, [k] * N, x0, u)):
            close(s, np.array(t, dtype=float), 'simulated state')
        for g, e, w in zip(sys.condense(N), columns(modes, [k] * N, nx, nu), ('A_bar', 'B_bar', 'c_bar')):
            close(g, e, 'condensed %s' % w)
    seq = [t % 2 for t in range(N)]
    for g, e, w in zip(P.condense(seq), columns(modes, seq, nx, nu), ('A_bar', 'B_bar', 'c_bar')):
        close(g, e, 'condensed %s' % w)
    x = list(x0)
    for t, s in enumerate(L.simulate_closed_loop(ax, N, aK)):
        close(s, np.array(x, dtype=float), 'closed-loop state %d' % t)
        uu = matvec(K, x)
        x = [p + q for p, q in zip(matvec(A, x), matvec(B, uu))]
    xs, zs = P.simulate(ax, au)
    ex = traj(modes, zs, x0, u)
    need(len(xs) == N + 1 and len(zs) == N, '%d states, %d modes for %d inputs', len(xs), len(zs), N)
    for s, t in zip(xs, ex):
        close(s, np.array(t, dtype=float), 'simulated state of the PWA system')
    ctx.step(8)
    ctx.outcome('%d integer fields' % (6 - sum(on)))


LAYERS += [Cases('long', gen_long, check_long, 'horizons up to 33 (thorough 64), periodic / blockwise / aperiodic mode sequences and one late switch'),
           Cases('types', gen_types, check_types, 'every assignment of integer / fractional arrays to A, B, c, initial state, inputs, gain')]


# -- one call after another on the same system ------------------------------------------------------------------------------------

def gen_again(tier):
    for nx, nu in ((1, 1), (2, 1), (2, 2)):
        seqs = [list(q) for N in (1, 2, 3) for q in itertools.product(range(2), repeat=N)] + ([] if tier == 'quick' else [list(q) for q in itertools.product(range(2), repeat=4)])
        for a in seqs:
            for b in seqs:
                for w in (0, 1):
                    yield [nx, nu, a, b, w]
    for N in range(1, 6):
        for M in range(1, 6):
            for kind in 'LA':
                for w in (0, 1):
                    yield [2, 1, [kind, N], [kind, M], w]


def check_again(case, ctx):
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    nx, nu, a, b, w = case
    ctx.state()
    modes = [mats(nx, nu, m + 1) for m in range(2)]
    if w:
        modes = modes[::-1]
    ar = lambda md: [np.array(M, dtype=float) for M in md]
    if isinstance(a[0], str):
        A, B, c = modes[0]
        S = LinearSystem(*ar((A, B))) if a[0] == 'L' else AffineSystem(*ar((A, B, c)))
        c = [0] * nx if a[0] == 'L' else c
        for N in (a[1], b[1], a[1]):
            got = S.condense(N)
            for g, e, t in zip(got, columns([(A, B, c)], [0] * N, nx, nu), ('A_bar', 'B_bar', 'c_bar')):
                close(g, e, 'condense(%d): %s' % (N, t))
            ctx.step()
            x0 = [2 - i for i in range(nx)]
            u = [[t + 1 - i for i in range(nu)] for t in range(N)]
            xs = S.simulate(np.array(x0, dtype=float), [np.array(v, dtype=float) for v in u])
            for s_, t in zip(xs, traj([(A, B, c)], [0] * N, x0, u)):
                close(s_, np.array(t, dtype=float), 'simulated state')
            need(len(xs) == N + 1, '%d states for %d inputs', len(xs), N)
            for g in list(got) + list(xs):
                g += 5.
        ctx.outcome('system')
        return
    P = PieceWiseAffineSystem([AffineSystem(*ar(md)) for md in modes], [Polyhedron(np.zeros((0, nx + nu)), np.zeros(0)) for _ in modes])
    seq = None
    for q in (a, b, a):
        seq = list(q)
        got = P.condense(seq)
        need(seq == list(q), 'mode sequence modified')
        for g, e, t in zip(got, columns(modes, q, nx, nu), ('A_bar', 'B_bar', 'c_bar')):
            close(g, e, 'condensed %s of %r (after %r)' % (t, q, a))
        ctx.step()
        for g in got:
            g += 5.       # the caller's copy
    ctx.outcome('pwa')


LAYERS.append(Cases('again', gen_again, check_again, 'ordered pairs (i, j, i again) of all mode sequences of length 1..3 (thorough 4) / of horizons 1..5 on one object, results overwritten in between'))


# -- sizes ----------------------------------------------------------------------------------------------------------------------------

def gen_sizes(tier):
    for nx, nu in ((1, 1), (2, 1), (2, 2)):
        for a in (-40, -25, -15, -10, 0, 12, 30):
            for b in (None, -40, -15, 0, 20):
                for m in range(2):
                    yield [nx, nu, a, b, m]


def check_sizes(case, ctx):
    """Initial states of size 2^a and inputs of size 2^b (or zero): relative accuracy, open and closed loop, one and several modes."""
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    nx, nu, a, b, m = case
    N = 12
    A, B, c = mats(nx, nu, m + 1)
    A2, B2, c2 = mats(nx, nu, m + 2)
    x0 = [2. ** a * (1 + .5 * i) * (-1) ** i for i in range(nx)]
    u = [[0. if b is None else 2. ** b * (((t + i) % 3) - 1) for i in range(nu)] for t in range(N)]
    K = [[.25 - .5 * ((i + j) % 2) for j in range(nx)] for i in range(nu)]
    f = lambda M: np.array(M, dtype=float)
    ctx.state()

    def near(got, exp, what):
        need(len(got) == len(exp), '%s: %d states, expected %d', what, len(got), len(exp))
        top = 0.
        for t, (g, e) in enumerate(zip(got, exp)):
            e = np.array([float(v) for v in e])
            top = max(top, np.abs(e).max(), max((abs(v) for w in u[:t] for v in w), default=0.) if what != 'closed loop' else 0.)
            need(np.shape(g) == e.shape and np.abs(g - e).max() <= 1e-9 * top, '%s: state %d is %r, expected %r', what, t, np.asarray(g).tolist(), e.tolist())
    z = [0] * nx
    near(LinearSystem(f(A), f(B)).simulate(f(x0), [f(v) for v in u]), traj([(A, B, z)], [0] * N, x0, u), 'linear system')
    near(AffineSystem(f(A), f(B), f(c)).simulate(f(x0), [f(v) for v in u]), traj([(A, B, c)], [0] * N, x0, u), 'affine system')
    P = PieceWiseAffineSystem([AffineSystem(f(A), f(B), f(c)), AffineSystem(f(A2), f(B2), f(c2))], [Polyhedron(np.zeros((0, nx + nu)), np.zeros(0)) for _ in range(2)])
    xs, zs = P.simulate(f(x0), [f(v) for v in u])
    near(xs, traj([(A, B, c), (A2, B2, c2)], zs, x0, u), 'piecewise-affine system')
    x, exp = [Fraction(v) for v in x0], []
    for t in range(N + 1):
        exp.append(x)
        x = [p + q for p, q in zip(matvec(A, x), matvec(B, matvec(K, x)))]
    near(LinearSystem(f(A), f(B)).simulate_closed_loop(f(x0), N, f(K)), exp, 'closed loop')
    ctx.step(4)
    ctx.outcome('state 2^%d' % a)


LAYERS.append(Cases('sizes', gen_sizes, check_sizes, 'initial states of size 2^-40..2^30 and inputs of size 0, 2^-40..2^20, 12 steps, open and closed loop, relative accuracy'))
