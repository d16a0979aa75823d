"""C16: discretisation of continuous-time systems, and systems written symbolically, against exact rational series."""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Cases, need
from ..ref import matmul


def expm_exact(M, h, terms):
    """Partial sum of exp(M h) over the rationals (terms large enough for 1e-12 at the sizes used)."""
    n = len(M)
    h = Fraction(h)
    T = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    S = [r[:] for r in T]
    for k in range(1, terms):
        T = [[x * h / k for x in r] for r in matmul(T, M)]
        S = [[a + b for a, b in zip(r, s)] for r, s in zip(S, T)]
    return S


def reference(A, B, c, h, method):
    nx, nu = len(A), len(B[0])
    if method == 'explicit_euler':
        h = Fraction(h)
        return ([[A[i][j] * h + int(i == j) for j in range(nx)] for i in range(nx)], [[x * h for x in r] for r in B], [x * h for x in c])
    M = [list(A[i]) + list(B[i]) + [c[i]] for i in range(nx)] + [[0] * (nx + nu + 1) for _ in range(nu + 1)]
    S = expm_exact([[Fraction(t) for t in r] for r in M], h, 45 + int(4 * float(Fraction(h)) * max(sum(abs(float(t)) for t in r) for r in M)))
    return [r[:nx] for r in S[:nx]], [r[nx:nx + nu] for r in S[:nx]], [r[nx + nu] for r in S[:nx]]


def same(got, exp, what, scale=1.):
    E = np.array([[float(x) for x in r] for r in exp]) if isinstance(exp[0], list) else np.array([float(x) for x in exp])
    need(np.shape(got) == E.shape, '%s has shape %s, expected %s', what, np.shape(got), E.shape)
    need(np.abs(np.asarray(got, dtype=float) - E).max() <= 1.e-9 * (max(min(1., scale), 1e-3) + np.abs(E).max()), '%s is %r, expected %r', what, np.asarray(got).tolist(), E.tolist())


def gen(tier):
    hs = (0., .125, .5, 1.)
    v = (-1, 0, 2) if tier == 'quick' else (-2, -1, 0, 1, 2)
    for a in (-2, -1, 0, 1, 2):
        for b in ([1], [1, -2], [0, 3, 1]):
            for c in (0, 3):
                for h in hs + (.3, 2.):
                    yield [[[a]], [b], [c], h]
    for a in itertools.product(v, repeat=4):
        for B, c in (([[1], [0]], [0, 0]), ([[0, 1], [2, -1]], [1, -3])):
            for h in hs[1:] if tier == 'quick' else hs:
                yield [[list(a[:2]), list(a[2:])], B, c, h]
    # short and long steps, slow and fast dynamics
    for h in (2. ** -20, 2. ** -12, 2. ** -7, .01, 4., 8., .4 + 3 * 2. ** -20, 1. / 3., 2.00000015):
        for sc in (Fraction(1, 64), Fraction(1, 4), Fraction(1), Fraction(4), Fraction(32)):
            if h * sc * 3 > 16:
                continue
            for A in ([[-1]], [[1]], [[0]], [[0, 1], [0, 0]], [[0, 1], [-1, 0]], [[-1, 2], [0, -1]], [[0, 0], [0, -2]], [[1, 1, 0], [0, -1, 2], [0, 0, 0]]):
                n = len(A)
                for B, c in (([[1]] * n, [1] * n), ([[i - 1, 2] for i in range(n)], [0] * (n - 1) + [-3])):
                    yield [[[float(sc * t) for t in r] for r in A], B, c, h]
    # almost singular dynamics
    for e in (2. ** -8, 2. ** -16, 2. ** -24, 2. ** -30, 2. ** -40):
        for A in ([[e]], [[1, 1], [1, 1 + e]], [[-1, 2], [-2, 4 - e]], [[e, 0], [0, -e]], [[0, 1], [-e, 0]], [[0, 1], [e, -e]], [[-1, 1, 0], [0, -e, 1], [1, -1, e]]):
            n = len(A)
            for B, c in (([[1]] * n, [1] * n), ([[i - 1, 2] for i in range(n)], [0] * (n - 1) + [-3])):
                for h in (.125, 1.):
                    yield [A, B, c, h]
    for n in (3, 4, 5, 6):
        shift = [[1 if j == i + 1 else 0 for j in range(n)] for i in range(n)]         # chain of integrators (singular)
        full = [[((i * 3 + j * 5) % 4) - 2 for j in range(n)] for i in range(n)]
        asym = [[(i - j) if abs(i - j) == 1 else 0 for j in range(n)] for i in range(n)]
        for A in (shift, full, asym, [[-1 if i == j else 0 for j in range(n)] for i in range(n)]):
            for nu in (1, 2, 3):
                B = [[((i + 2 * j) % 3) - 1 if i < n - 1 else 1 + j for j in range(nu)] for i in range(n)]
                for c in ([0] * n, [(-1) ** i * i for i in range(n)]):
                    for h in (.125, .25):
                        yield [A, B, c, h]


def check(case, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    from pympc.dynamics.discretization_methods import zero_order_hold, explicit_euler
    A, B, c, h = case
    fa = [np.array(A, dtype=float), np.array(B, dtype=float), np.array(c, dtype=float)]
    keep = [x.copy() for x in fa]
    ctx.state()
    for method, fun in (('zero_order_hold', zero_order_hold), ('explicit_euler', explicit_euler)):
        ref = reference(A, B, c, h, method)
        got = fun(fa[0], fa[1], fa[2], h)
        for g, e, w in zip(got, ref, 'ABc'):
            same(g, e, '%s: %s' % (method, w))
        S = AffineSystem.from_continuous(fa[0], fa[1], fa[2], h, method)
        for g, e, w in zip((S.A, S.B, S.c), ref, 'ABc'):
            same(g, e, 'affine %s: %s' % (method, w))
        need((S.nx, S.nu) == fa[1].shape, 'sizes %r', (S.nx, S.nu))
        ref0 = reference(A, B, [0] * len(c), h, method)
        L = LinearSystem.from_continuous(fa[0], fa[1], h, method)
        for g, e, w in zip((L.A, L.B), ref0, 'AB'):
            same(g, e, 'linear %s: %s' % (method, w))
        need((L.nx, L.nu) == fa[1].shape, 'sizes %r', (L.nx, L.nu))
        ctx.step(3)
        ctx.outcome(method)
        if method == 'zero_order_hold':
            S = AffineSystem.from_continuous(fa[0], fa[1], fa[2], h)
            L = LinearSystem.from_continuous(fa[0], fa[1], h)
            same(S.c, ref[2], 'default method of the affine system')
            same(L.B, ref0[1], 'default method of the linear system')
            ctx.step(2)
    need(all(np.array_equal(x, y) for x, y in zip(fa, keep)), 'arguments modified')


def gen_sym(tier):
    for nx in (1, 2, 3):
        for nu in (1, 2):
            for v in range(6):
                for h in (.25, 1.):
                    for off in (0, 1):
                        yield [nx, nu, v, h, off]


def check_sym(case, ctx):
    import sympy as sp
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    nx, nu, v, h, off = case
    A = [[((i * 3 + j * 5 + v) % 4) - 1 for j in range(nx)] for i in range(nx)]
    B = [[((i * 2 + j * 3 + v) % 3) - 1 for j in range(nu)] for i in range(nx)]
    c = [off * (((i + v) % 3) - 1 or 2) for i in range(nx)]
    x = sp.Matrix(sp.symbols('x0:%d' % nx))
    u = sp.Matrix(sp.symbols('u0:%d' % nu))
    expr = sp.Matrix(A) * x + sp.Matrix(B) * u + sp.Matrix(c)
    ctx.state()
    S = AffineSystem.from_symbolic(x, u, expr)
    for g, e, w in zip((S.A, S.B, S.c), (A, B, c), 'ABc'):
        same(g, e, 'symbolic affine system: ' + w)
    for method in ('zero_order_hold', 'explicit_euler'):
        ref = reference(A, B, c, h, method)
        S = AffineSystem.from_symbolic_continuous(x, u, expr, h, method)
        for g, e, w in zip((S.A, S.B, S.c), ref, 'ABc'):
            same(g, e, 'symbolic continuous affine system, %s: %s' % (method, w))
        ctx.step()
    S = AffineSystem.from_symbolic_continuous(x, u, expr, h)
    same(S.A, reference(A, B, c, h, 'zero_order_hold')[0], 'symbolic continuous affine system, default method')
    ctx.step(2)
    if off:
        for f in (lambda: LinearSystem.from_symbolic(x, u, expr), lambda: LinearSystem.from_symbolic_continuous(x, u, expr, h)):
            ctx.step()
            try:
                f()
            except ValueError:
                continue
            need(False, 'linear system accepted an expression with the offset %r', c)
        ctx.outcome('offset rejected')
    else:
        S = LinearSystem.from_symbolic(x, u, expr)
        same(S.A, A, 'symbolic linear system: A')
        same(S.B, B, 'symbolic linear system: B')
        for method in ('zero_order_hold', 'explicit_euler'):
            ref = reference(A, B, c, h, method)
            S = LinearSystem.from_symbolic_continuous(x, u, expr, h, method)
            same(S.A, ref[0], 'symbolic continuous linear system, %s: A' % method)
            same(S.B, ref[1], 'symbolic continuous linear system, %s: B' % method)
        S = LinearSystem.from_symbolic_continuous(x, u, expr, h)
        same(S.B, reference(A, B, c, h, 'zero_order_hold')[1], 'symbolic continuous linear system, default method')
        ctx.step(4)
        ctx.outcome('linear')


LAYERS = [Cases('discretize', gen, check, 'all 1x1 and 2x2 integer dynamics, integrator chains / full / skew / diagonal dynamics up to 6 states, 1..3 inputs, with and without offset, almost singular dynamics, steps 0..2, both methods and the default'),
          Cases('symbolic', gen_sym, check_sym, '1..3 states, 1..2 inputs, 6 coefficient patterns, with and without offset; discrete and continuous symbolic constructors')]


NUM = [('1/3', 1. / 3.), ('pi', np.pi), ('sqrt(2)', 2. ** .5), ('1234.5678', 1234.5678), ('-98765/7', -98765. / 7.), ('1e-7', 1e-7), ('exp(-3)', float(np.exp(-3.))), ('123456789', 123456789.), ('0', 0.)]


def gen_digits(tier):
    for nx, nu in ((1, 1), (2, 1), (2, 2)):
        for k in range(len(NUM)):
            for v in range(3):
                yield [nx, nu, k, v]


def check_digits(case, ctx):
    """Coefficients with many digits, irrational or of very different size, in A, B and c."""
    import sympy as sp
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    nx, nu, k, v = case
    pick = lambda i: NUM[(k + i) % len(NUM)]
    x = sp.Matrix(sp.symbols('x0:%d' % nx))
    u = sp.Matrix(sp.symbols('u0:%d' % nu))
    M = [[pick(i * (nx + nu + 1) + j + v * i) for j in range(nx + nu + 1)] for i in range(nx)]
    lin = [sum((sp.sympify(t) * w for (t, _), w in zip(r, list(x) + list(u))), sp.Integer(0)) for r in M]
    expr = sp.Matrix([e + sp.sympify(r[-1][0]) for e, r in zip(lin, M)])
    val = np.array([[t for _, t in r] for r in M])
    ctx.state()
    def near(got, exp, what):
        need(np.shape(got) == exp.shape and np.all(np.abs(np.asarray(got, dtype=float) - exp) <= 1e-9 * (1e-3 + np.abs(exp)) + 1e-15 * np.abs(val).max()), '%s is %r, expected %r', what, np.asarray(got).tolist(), exp.tolist())
    S = AffineSystem.from_symbolic(x, u, expr)
    L = LinearSystem.from_symbolic(x, u, sp.Matrix(lin))
    near(S.A, val[:, :nx], 'symbolic affine system: A')
    near(S.B, val[:, nx:nx + nu], 'symbolic affine system: B')
    near(S.c, val[:, -1], 'symbolic affine system: c')
    near(L.A, val[:, :nx], 'symbolic linear system: A')
    near(L.B, val[:, nx:nx + nu], 'symbolic linear system: B')
    S = AffineSystem.from_symbolic_continuous(x, u, expr, .5, 'explicit_euler')
    L = LinearSystem.from_symbolic_continuous(x, u, sp.Matrix(lin), .5, 'explicit_euler')
    for g, e, w in ((S.A, np.eye(nx) + .5 * val[:, :nx], 'A'), (S.B, .5 * val[:, nx:nx + nu], 'B'), (S.c, .5 * val[:, -1], 'c'), (L.A, np.eye(nx) + .5 * val[:, :nx], 'A'), (L.B, .5 * val[:, nx:nx + nu], 'B')):
        near(g, e, 'Euler step of a symbolic system: ' + w)
    ctx.step(4)
    ctx.outcome(NUM[k][0])


def names():
    """Names of the states and of the inputs: the order is the one given, whatever the names."""
    yield 'z a m', 'y b'
    yield 'b a', 'd c'
    yield 'u1 u0', 'x1 x0'
    yield 'q v', 'p'
    yield 'theta omega', 'tau'
    yield ' '.join('x%d' % i for i in range(12)), 'u'
    yield 'x', ' '.join('u%d' % i for i in range(11))
    yield ' '.join('s%d' % i for i in (3, 10, 2, 1)), 'k9 k10'
    yield 'X x', 'U u'


def gen_names(tier):
    for k in range(len(list(names()))):
        for v in range(4 if tier == 'quick' else 9):
            for off in (0, 1):
                yield [k, v, off]


def check_names(case, ctx):
    import sympy as sp
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    k, v, off = case
    xs, us = list(names())[k]
    x, u = sp.Matrix([sp.Symbol(t) for t in xs.split()]), sp.Matrix([sp.Symbol(t) for t in us.split()])
    nx, nu = len(x), len(u)
    A = [[((i * 3 + j * 5 + v) % 7) - 3 + (i == j) * .5 for j in range(nx)] for i in range(nx)]
    B = [[((i * 2 + j * 3 + v) % 5) - 2 + (i == j) * .25 for j in range(nu)] for i in range(nx)]
    c = [off * (((i + v) % 3) - 1 or 2) for i in range(nx)]
    expr = sp.Matrix(A) * x + sp.Matrix(B) * u + sp.Matrix(c)
    ctx.state()
    got = [('symbolic affine system', AffineSystem.from_symbolic(x, u, expr), (A, B, c))]
    E = reference(A, B, c, .5, 'explicit_euler')
    got.append(('Euler step of a symbolic affine system', AffineSystem.from_symbolic_continuous(x, u, expr, .5, 'explicit_euler'), E))
    if not off:
        got.append(('symbolic linear system', LinearSystem.from_symbolic(x, u, expr), (A, B)))
        got.append(('Euler step of a symbolic linear system', LinearSystem.from_symbolic_continuous(x, u, expr, .5, 'explicit_euler'), E[:2]))
    ctx.step(len(got))
    for what, S, ref in got:
        for name, e in zip('ABc', ref):
            same(getattr(S, name), e, '%s with states %r and inputs %r: %s' % (what, xs, us, name))
    ctx.outcome('linear' if not off else 'affine')


LAYERS.append(Cases('names', gen_names, check_names, 'states and inputs with names in every order (not alphabetical, 12 states, 11 inputs, upper and lower case)'))
LAYERS.append(Cases('digits', gen_digits, check_digits, 'symbolic coefficients with many digits, irrational, very small and very large, rotated through every position of A, B, c'))


# -- one call after another --------------------------------------------------------------------------------------------------------

def pool16(k):
    """Systems that agree in all fields but one (or in traces, sums and norms)."""
    A, B, c, h = [([[-1]], [[2]], [3], .5), ([[0, 1], [-2, 1]], [[1], [3]], [1, -2], .25), ([[1, 2, 0], [0, -1, 1], [1, 0, 0]], [[1, 0], [2, -1], [0, 1]], [1, 0, -3], .125)][k]
    n = len(A)
    out = [(A, B, c, h), (A, B, c, 2 * h), (A, B, [0] * n, h), (A, B, [-t for t in c], h), (A, B, c[::-1], h), (A, [[-t for t in r] for r in B], c, h), (A, B[::-1], c, h),
           ([list(r) for r in zip(*A)], B, c, h), ([[-t for t in r] for r in A], B, c, h), (A[::-1], B, c, h), ([r[::-1] for r in A], B, c, h), (A, B, c, h / 4), ([[t + int(i == j) for j, t in enumerate(r)] for i, r in enumerate(A)], B, c, h),
           ([[2 * t for t in r] for r in A], [[2 * t for t in r] for r in B], [2 * t for t in c], h / 2)]
    ded = []
    for t in out:
        if t not in ded:
            ded.append(t)
    return ded


def gen_again(tier):
    for k in range(3):
        m = len(pool16(k))
        for i in range(m):
            for j in range(m):
                for how in range(4):
                    for same_arrays in (0, 1):
                        yield [k, i, j, how, same_arrays]


_REF = {}


def check_again(case, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    from pympc.dynamics import discretization_methods as dm
    k, i, j, how, same_arrays = case
    m1, m2 = (('zero_order_hold', 'explicit_euler')[t] for t in ((0, 0), (1, 1), (0, 1), (1, 0))[how])
    P = pool16(k)
    ctx.state()
    arr = None
    for n, (t, method) in enumerate(((i, m1), (j, m2), (i, m1))):
        A, B, c, h = P[t]
        new = [np.array(v, dtype=float) for v in (A, B, c)]
        if arr is None or not same_arrays:
            arr = new
        else:
            for a, b in zip(arr, new):
                a[...] = b
        key = (k, t, method)
        if key not in _REF:
            _REF[key] = reference(A, B, c, h, method), reference(A, B, [0] * len(c), h, method)
        ref, ref0 = _REF[key]
        got = getattr(dm, method)(arr[0], arr[1], arr[2], h)
        S = AffineSystem.from_continuous(arr[0], arr[1], arr[2], h, method)
        L = LinearSystem.from_continuous(arr[0], arr[1], h, method)
        for g, e, w in zip(list(got) + [S.A, S.B, S.c, L.A, L.B], list(ref) * 2 + list(ref0)[:2], 'ABcABcAB'):
            same(g, e, 'call %d (%s): %s' % (n + 1, method, w))
        # what the caller does with the result is his own business
        for g in list(got) + [S.A, S.B, S.c, L.A, L.B]:
            if g.flags.writeable:
                g += 7.
        ctx.step(3)
    ctx.outcome('%s-%s' % (m1, m2))


LAYERS.append(Cases('again', gen_again, check_again, 'ordered pairs (i, j, i again) of 12..14 look-alike systems (all fields equal but one, transposed, reversed, mirrored, rescaled), both methods in every order, new arrays or the same arrays overwritten'))
