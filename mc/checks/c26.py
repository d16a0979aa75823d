"""
C26: malformed data.  Every combination of shapes up to the bound is offered to every entry point; the reference decides from
the shapes alone whether the call is well formed.  Malformed calls must raise a ValueError and leave the object they are made
on exactly as it was (constraints and answers, with and without questions asked before); well-formed ones must be accepted.
"""
import contextlib
import copy
import io
import itertools
import numpy as np
from ..core import Cases, need
from .. import poly
from .c01 import box


def arr(shape, seed=0):
    n = int(np.prod(shape))
    return (np.arange(n, dtype=float) * 3 % 7 - 2 + .25 * seed).reshape(shape)


def outcome(f):
    try:
        r = f()
    except ValueError:
        return 'ValueError', None
    except Exception as e:
        return type(e).__name__, None
    return 'accepted', r


def judge(ctx, bad, got, what):
    ctx.step()
    if bad:
        ctx.outcome('refused')
        need(got == 'ValueError', '%s is malformed (%s): %s instead of a ValueError', what, bad, got)
    else:
        ctx.outcome('accepted')
        need(got == 'accepted', '%s is well formed: %s', what, got)


# -- constructor ---------------------------------------------------------------------------------------------------------------

def gen_ctor(tier):
    s = (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4)
    for n in (1, 2, 3):
        for m, k in itertools.product(s, s):
            yield [n, m, [k], None, None]
            yield [n, m, [k, 1], None, None]
            yield [n, m, [1, k], None, None]
            yield [n, m, [k], 'C', None]
            yield [n, m, [k], None, 'd']
            for p, q in itertools.product(s[:4], s[:4]):
                yield [n, m, [k], p, [q]]
                if p == q:
                    yield [n, m, [k], p, [q, 1]]


def check_ctor(case, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n, m, bs, p, q = case
    ctx.state()
    A, b = arr((m, n)), arr(bs, 1)
    C = None if p is None else arr((2 if p == 'C' else p, n), 2)
    d = None if q is None else arr((2,) if q == 'd' else q, 3)
    bad = None
    if len(bs) > 1:
        bad = 'b has two dimensions'
    elif bs[0] != m:
        bad = '%d rows in A, %d in b' % (m, bs[0])
    elif (C is None) != (d is None):
        bad = 'only one of C and d'
    elif C is not None and d.ndim > 1:
        bad = 'd has two dimensions'
    elif C is not None and C.shape[0] != d.size:
        bad = '%d rows in C, %d in d' % (C.shape[0], d.size)
    got, P = outcome(lambda: Polyhedron(A, b) if C is None and d is None else Polyhedron(A, b, C, d))
    judge(ctx, bad, got, 'Polyhedron(A %s, b %s, C %s, d %s)' % (A.shape, b.shape, None if C is None else C.shape, None if d is None else d.shape))
    if not bad:
        need(np.array_equal(P.A, A) and np.array_equal(P.b, b) and (C is None and P.C.shape == (0, n) and P.d.shape == (0,) or np.array_equal(P.C, C) and np.array_equal(P.d, d)), 'constructed polyhedron differs from its arguments')


# -- add operations on an object with a history -------------------------------------------------------------------------------------

BODIES = {
    'box': lambda n: (box(n, -1, 1), []),
    'orthant': lambda n: ([(tuple(-int(i == j) for j in range(n)), 0) for i in range(n)], []),
    'empty': lambda n: ([(tuple([1] + [0] * (n - 1)), -1), (tuple([-1] + [0] * (n - 1)), 0)], []),
    'tied': lambda n: (box(n, -1, 1), [(tuple([1] * n), .5)]),
}


def answers(p, n, eq):
    """What the object answers (JSON-like)."""
    np.random.seed(3)
    out = [bool(p.empty), bool(p.bounded)]
    if n > 1 or not eq:
        r = p.radius
        v = p.vertices
        out += [None if r is None else float(r), None if p.center is None else p.center.tolist(), None if v is None else sorted(w.tolist() for w in v)]
        out.append(p.minimal_facets())
    out.append([bool(p.contains(np.array(x))) for x in itertools.product((-1.5, -.5, 0., .5, 1.), repeat=n)])
    return out


def close(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def frozen(p):
    return [(getattr(p, k).shape, getattr(p, k).astype(float).tobytes()) for k in ('A', 'b', 'C', 'd')]


def unchanged(p, before, ans, n, eq, what):
    now = frozen(p)
    for k, a, b in zip('AbCd', before, now):
        need(a == b, '%s was refused, but %s changed from shape %s to %s (or its entries changed)', what, k, a[0], b[0])
    if ans is not None:
        got = answers(p, n, eq)
        need(close(ans, got), '%s was refused, but the answers changed: %r -> %r', what, ans, got)


def add_calls(n, tier):
    s = (0, 1, 2, 3)
    idxs = [None] + [list(c) for k in range(1, n + 1) for c in itertools.permutations(range(n), k)]
    for meth in ('add_inequality', 'add_equality'):
        for idx in idxs:
            for m, k in itertools.product(s, s):
                for w in range(1, n + 2):
                    yield [meth, [m, w], [k], idx]
            yield [meth, [2, n if idx is None else len(idx)], [2, 1], idx]
    for idx in idxs:
        for k in range(0, n + 2):
            yield ['add_lower_bound', [k], idx]
            yield ['add_upper_bound', [k], idx]
            for l in range(0, n + 2):
                yield ['add_bounds', [k], [l], idx]
        yield ['add_lower_bound', 'float', idx]
        yield ['add_upper_bound', 'float', idx]
        yield ['add_bounds', 'float', 'float', idx]
        yield ['add_bounds', 'float', [2], idx]
        yield ['add_bounds', [2], 'float', idx]


def gen_add(tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for body in BODIES:
            for asked in (0, 1):
                for c in add_calls(n, tier):
                    if n == 3 and body != 'box':
                        continue
                    yield [n, body, asked, c]


def check_add(case, ctx):
    n, body, asked, c = case
    ctx.state()
    ineqs, eqs = BODIES[body](n)
    p = poly.real(ineqs, eqs, n)
    ans = answers(p, n, eqs) if asked else None
    before = frozen(p)
    idx = c[-1]
    k = n if idx is None else len(idx)
    f = lambda s, seed: .5 if s == 'float' else arr(s, seed)
    size = lambda s: 1 if s == 'float' else s[0]
    bad = None
    if c[0] in ('add_inequality', 'add_equality'):
        A, b = arr(c[1]), arr(c[2], 1)
        args = (A, b)
        if c[1][0] != b.size:
            bad = '%d rows and %d entries' % (c[1][0], b.size)
        elif len(c[2]) > 1:
            bad = 'right-hand side with two dimensions'
        elif c[1][1] != k:
            bad = '%d columns for %d components' % (c[1][1], k)
    else:
        args = tuple(f(s, i) for i, s in enumerate(c[1:-1]))
        for s in c[1:-1]:
            if size(s) != k:
                bad = '%d bounds for %d components' % (size(s), k)
    call = lambda: getattr(p, c[0])(*args) if idx is None else getattr(p, c[0])(*(args + (idx,)))
    got, _ = outcome(call)
    what = '%s(%s) on components %s of the %s in dimension %d' % (c[0], ', '.join(str(a if isinstance(a, float) else a.shape) for a in args), idx, body, n)
    judge(ctx, bad, got, what)
    if bad:
        unchanged(p, before, ans, n, eqs, what)


# -- constructors from bounds -----------------------------------------------------------------------------------------------------------

def gen_from(tier):
    for meth in ('from_lower_bound', 'from_upper_bound', 'from_bounds'):
        for idx in [None] + [list(c) for k in (1, 2, 3) for c in itertools.permutations(range(3), k)]:
            for n in (None, 1, 2, 3, 4):
                for k in range(1, 5):
                    if meth != 'from_bounds':
                        yield [meth, [k], idx, n]
                    else:
                        for l in range(1, 5):
                            yield [meth, [k, l], idx, n]


def check_from(case, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    meth, ks, idx, n = case
    ctx.state()
    bad, out = None, False
    if idx is not None and n is None:
        bad = 'components without the dimension'
    elif len(set(ks)) > 1:
        bad = 'bounds of different sizes'
    elif idx is not None and max(idx) >= n:
        bad, out = 'component out of range', True
    elif idx is not None and len(idx) != ks[0]:
        bad = '%d bounds for %d components' % (ks[0], len(idx))
    elif idx is None and n is not None and n != ks[0]:
        bad = '%d bounds in dimension %d' % (ks[0], n)
    args = [arr((k,), i) for i, k in enumerate(ks)]
    got, P = outcome(lambda: getattr(Polyhedron, meth)(*args, indices=idx, n=n))
    if out:
        ctx.step()
        ctx.outcome('refused')
        need(got in ('ValueError', 'IndexError'), '%s%r: %s', meth, (ks, idx, n), got)
        return
    judge(ctx, bad, got, '%s with %r bounds, components %r, dimension %r' % (meth, ks, idx, n))


# -- programs ---------------------------------------------------------------------------------------------------------------------------------

def gen_prog(tier):
    for kind in ('lp', 'qp', 'miqp'):
        for solver in ('pnnls', 'gurobi', None, 'PNNLS', 'simplex', '', 'gurobi '):
            for eq in ('both', 'none', 'C', 'd'):
                for n, m, q in itertools.product((1, 2, 3), (1, 3), (1, 2)):
                    if q > n:
                        continue
                    yield [kind, solver, eq, n, m, q]


def check_prog(case, ctx):
    from pympc.optimization.programs import linear_program, quadratic_program, mixed_integer_quadratic_program
    kind, solver, eq, n, m, q = case
    ctx.state()
    known = (None, 'gurobi') if kind == 'miqp' else (None, 'pnnls', 'gurobi')
    bad = None
    if solver not in known:
        bad = 'unknown solver'
    elif eq in 'Cd':
        bad = 'only one of C and d'
    H, f = np.eye(n), np.ones(n)
    A, b = np.vstack([-np.eye(n)] * m)[:max(m, n)], np.zeros(max(m, n) if max(m, n) < m * n else m * n)
    b = np.zeros(A.shape[0])
    C, d = np.eye(n)[:q], np.zeros(q)
    kw = {}
    if eq in ('both', 'C'):
        kw['C'] = C
    if eq in ('both', 'd'):
        kw['d'] = d
    if solver is not None:
        kw['solver'] = solver
    call = {'lp': lambda: linear_program(f, A, b, **kw), 'qp': lambda: quadratic_program(H, f, A, b, **kw), 'miqp': lambda: mixed_integer_quadratic_program(n - 1, H, f, A, b, **kw)}[kind]
    got, sol = outcome(call)
    judge(ctx, bad, got, '%s with solver %r and equalities %r' % (kind, solver, eq))
    if not bad:
        need(sol['min'] is not None, '%s with solver %r has no solution', kind, solver)


# -- dynamics ----------------------------------------------------------------------------------------------------------------------------------

def gen_dyn(tier):
    s = (1, 2, 3)
    for a0, a1, r in itertools.product(s, s, s):
        for nu in (1, 2):
            for where in ('LinearSystem', 'LinearSystem.from_continuous'):
                yield [where, [a0, a1], [r, nu], None, .5]
            for c in [[1], [2], [3], [a0, 1], [1, a0]]:
                for where in ('AffineSystem', 'AffineSystem.from_continuous', 'zero_order_hold', 'explicit_euler', 'check_affine_system'):
                    yield [where, [a0, a1], [r, nu], c, .5]
    for where in ('LinearSystem.from_continuous', 'AffineSystem.from_continuous', 'zero_order_hold', 'explicit_euler', 'check_affine_system'):
        for n in (1, 2, 3):
            for h in (-1., -1e-3, -1e-9, 1e-9, .5, 2):
                for meth in ('zero_order_hold', 'explicit_euler', 'zoh', 'euler', '', 'Zero_Order_Hold'):
                    if 'from' not in where and meth != 'zero_order_hold':
                        continue
                    yield [where, [n, n], [n, 1], None if 'Linear' in where else [n], h, meth]


def check_dyn(case, ctx):
    from pympc.dynamics import discrete_time_systems as D, discretization_methods as M, utils as U
    where, a, bsh, c, h = case[:5]
    meth = case[5] if len(case) > 5 else None
    ctx.state()
    A, B = arr(a) * .25, arr(bsh, 1)
    cc = None if c is None else arr(c, 2)
    bad = None
    if a[0] != a[1]:
        bad = 'A is not square'
    elif a[0] != bsh[0]:
        bad = 'A and B have different numbers of rows'
    elif c is not None and len(c) > 1:
        bad = 'c has two dimensions'
    elif c is not None and c[0] != a[0]:
        bad = 'A and c have different numbers of rows'
    elif h < 0 and where not in ('LinearSystem', 'AffineSystem'):
        bad = 'negative time step'
    elif meth is not None and 'from' in where and meth not in ('zero_order_hold', 'explicit_euler'):
        bad = 'unknown method'
    kw = {} if meth is None else {'method': meth}
    call = {
        'LinearSystem': lambda: D.LinearSystem(A, B), 'LinearSystem.from_continuous': lambda: D.LinearSystem.from_continuous(A, B, h, **kw),
        'AffineSystem': lambda: D.AffineSystem(A, B, cc), 'AffineSystem.from_continuous': lambda: D.AffineSystem.from_continuous(A, B, cc, h, **kw),
        'zero_order_hold': lambda: M.zero_order_hold(A, B, cc, h), 'explicit_euler': lambda: M.explicit_euler(A, B, cc, h),
        'check_affine_system': lambda: U.check_affine_system(A, B, cc, h)}[where]
    got, _ = outcome(call)
    judge(ctx, bad, got, '%s(A %s, B %s, c %s, h %s, method %s)' % (where, a, bsh, c, h, meth))


def gen_sym(tier):
    for off in itertools.product((0, 1, -.25, 1e-3), repeat=2):
        for where in ('from_symbolic', 'from_symbolic_continuous'):
            for cls in ('LinearSystem', 'AffineSystem'):
                for meth in (None, 'explicit_euler', 'unknown'):
                    for h in (.5, -.5):
                        if where == 'from_symbolic' and (meth or h < 0):
                            continue
                        yield [cls, where, list(off), meth, h]


def check_sym(case, ctx):
    import sympy as sp
    from pympc.dynamics import discrete_time_systems as D
    cls, where, off, meth, h = case
    ctx.state()
    x, u = sp.Matrix(sp.symbols('x1 x2')), sp.Matrix(sp.symbols('u1:2'))
    nxt = sp.Matrix([x[0] + 2 * x[1] + off[0], -x[0] + u[0] + off[1]])
    args = (x, u, nxt) if where == 'from_symbolic' else (x, u, nxt, h) + (() if meth is None else (meth,))
    bad = None
    if cls == 'LinearSystem' and any(off):
        bad = 'offset in a linear system'
    elif where != 'from_symbolic' and h < 0:
        bad = 'negative time step'
    elif meth == 'unknown':
        bad = 'unknown method'
    got, _ = outcome(lambda: getattr(getattr(D, cls), where)(*args))
    judge(ctx, bad, got, '%s.%s with offset %r, h=%r, method %r' % (cls, where, off, h, meth))


def gen_pwa(tier):
    one = [(1, 1), (2, 1), (1, 2)]
    for k in range(0, 4):
        for sys in itertools.product(range(3), repeat=k):
            for l in range(0, 4):
                if abs(k - l) > 1:
                    continue
                for dims in itertools.product((2, 3), repeat=l):
                    for lin in (0, 1):
                        yield [list(sys), list(dims), lin]


def check_pwa(case, ctx):
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    sys, dims, lin = case
    ctx.state()
    one = [(1, 1), (2, 1), (1, 2)]
    S = []
    for i, s in enumerate(sys):
        nx, nu = one[s]
        A, B, c = np.eye(nx) * (i + 1), np.ones((nx, nu)), np.zeros(nx)
        S.append(LinearSystem(A, B) if lin and i % 2 == 0 else AffineSystem(A, B, c))
    Ds = [poly.real(box(n, i, i + 1), [], n) for i, n in enumerate(dims)]
    bad = None
    if len(sys) != len(dims):
        bad = '%d systems, %d domains' % (len(sys), len(dims))
    elif not sys:
        bad = 'no system'
    elif len(set(one[s][0] for s in sys)) > 1:
        bad = 'different numbers of states'
    elif len(set(one[s][1] for s in sys)) > 1:
        bad = 'different numbers of inputs'
    elif len(set(dims)) > 1:
        bad = 'domains of different dimensions'
    elif dims[0] != sum(one[sys[0]]):
        bad = 'domains of dimension %d for %d states and %d inputs' % ((dims[0],) + one[sys[0]])
    S0, D0 = list(S), list(Ds)
    got, P = outcome(lambda: PieceWiseAffineSystem(S, Ds))
    judge(ctx, bad, got, 'PieceWiseAffineSystem of systems %r and domains of dimensions %r' % ([one[s] for s in sys], dims))
    need(len(S) == len(S0) and all(a is b for a, b in zip(S, S0)) and len(Ds) == len(D0) and all(a is b for a, b in zip(Ds, D0)), 'the lists of systems or domains were modified')


# -- refusals of operations that need something of the object -----------------------------------------------------------------------

def gen_ops(tier):
    for op in ('remove_redundant', 'project', 'plot-dims', 'mcais', 'dare', 'explicit', 'partition', 'value', 'vectors', 'trajectory', 'intersection', 'included'):
        for k in range(12):
            for asked in (0, 1):
                yield [op, k, asked]


def polys(k):
    n = 1 + k % 3
    kinds = list(BODIES)
    body = kinds[(k // 3) % 4]
    ineqs, eqs = BODIES[body](n)
    return n, body, ineqs, eqs


def check_ops(case, ctx):
    from pympc.geometry.utils import same_vectors
    from pympc.dynamics.discrete_time_systems import LinearSystem, mcais
    from pympc.control.controllers import ModelPredictiveController
    from pympc.plot import plot_state_space_trajectory
    import matplotlib
    matplotlib.use('Agg')
    op, k, asked = case
    ctx.state()
    n, body, ineqs, eqs = polys(k)
    p = poly.real(ineqs, eqs, n)
    ans = answers(p, n, eqs) if asked else None
    before = frozen(p)
    what = '%s of the %s in dimension %d' % (op, body, n)
    bad, call = None, None
    if op == 'remove_redundant':
        if eqs and n == 1:
            return
        bad = body == 'empty' and 'empty'
        call = p.remove_redundant_inequalities
    elif op == 'project':
        bad = body if body != 'box' else None
        call = lambda: p.project_to([n - 1])
    elif op == 'plot-dims':
        dims = [[0], [0, 1, 2], [], [0, 1, 0, 1]][k % 4]
        bad = 'not two dimensions'
        call = lambda: p.plot(residual_dimensions=dims)
    elif op == 'mcais':
        A = [np.eye(n) * .5, np.eye(n) * 1.5, np.diag([.5] * (n - 1) + [-1.25])][k % 3 if body == 'box' else (k + 1) % 3 if k % 2 else 0]
        if eqs:
            return
        bad = 'unstable' if np.abs(np.diag(A)).max() > 1 else (body if body != 'box' else None)
        call = lambda: mcais(A, p)
    elif op == 'dare':
        A, B = [(np.diag([2., .5][:n] + [1.] * (n - 2)), np.array([[1.]] + [[0.]] * (n - 1))), (np.eye(n), np.zeros((n, 1))), (np.eye(n), np.ones((n, 1)))][k % 3]
        R = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(n)])
        bad = 'uncontrollable' if np.linalg.matrix_rank(R) < n else None
        S = LinearSystem(A, B)
        if asked:
            S.controllable
        call = lambda: S.solve_dare(np.eye(n), np.eye(1))
    elif op in ('explicit', 'partition', 'value'):
        nx = 1 + k % 3
        S = LinearSystem(np.eye(nx) * .5, np.ones((nx, 1)))
        C = ModelPredictiveController(S, 1, np.eye(nx), np.eye(1), np.eye(nx), poly.real(box(nx + 1, -1, 1), [], nx + 1), poly.real(box(nx, -1, 1), [], nx))
        stored = asked
        if stored:
            C.store_explicit_solution()
        if op == 'explicit':
            bad = None if stored else 'not stored'
            call = lambda: (C.feedforward_explicit(np.zeros(nx)) if k % 2 else C.feedback_explicit(np.zeros(nx)))
        else:
            bad = 'not 2-dimensional' if nx != 2 else (None if stored else 'not stored')
            if not bad:
                return
            call = C.plot_state_space_partition if op == 'partition' else C.plot_optimal_value_function
    elif op == 'vectors':
        v = [np.arange(3.), np.ones(3)]
        w = [np.ones(3), np.arange(3.)]
        if k % 4 == 1:
            v[1] = v[1].reshape(3, 1)
        elif k % 4 == 2:
            w[0] = w[0].reshape(1, 3)
        elif k % 4 == 3:
            v, w = [a.reshape(3, 1) for a in v], [a.reshape(3, 1) for a in w]
        bad = 'two-dimensional vectors' if k % 4 else None
        call = lambda: same_vectors(v, w)
    elif op == 'trajectory':
        dim = [[0], [0, 1, 2], [], [1, 0]][k % 4]
        bad = None if k % 4 == 3 else 'not two components'
        import matplotlib.pyplot as plt
        call = lambda: plot_state_space_trajectory([np.arange(3.), np.ones(3)], dim=dim)
    elif op in ('intersection', 'included'):
        m = 1 + (k + 1) % 3
        q = poly.real(box(m, -1, 2), [], m)
        if op == 'included':
            return
        bad = 'different dimensions' if m != n else None
        bq = frozen(q)
        call = lambda: p.intersection(q)
        got, _ = outcome(call)
        judge(ctx, bad, got, what)
        need(frozen(q) == bq, 'second operand changed by a refused intersection')
        unchanged(p, before, ans, n, eqs, what)
        return
    with contextlib.redirect_stdout(io.StringIO()):
        got, _ = outcome(call)
    import matplotlib.pyplot as plt
    plt.close('all')
    judge(ctx, bad, got, what)
    if bad:
        unchanged(p, before, ans, n, eqs, what)


LAYERS = [Cases('constructor', gen_ctor, check_ctor, 'all shapes of A, b, C, d up to 3 (thorough 4) rows, 1..3 columns, one- and two-dimensional right-hand sides, missing halves'),
          Cases('add', gen_add, check_add, 'all shapes up to 3 rows and n+1 columns x all ordered index sets, on 4 bodies in dimension 1..2 (thorough 3), with and without questions asked before'),
          Cases('from-bounds', gen_from, check_from, 'all sizes 1..4 x ordered index sets of 3 x dimension None, 1..4'),
          Cases('programs', gen_prog, check_prog, 'LP, QP, MIQP x 7 solver names x missing halves of the equalities x sizes'),
          Cases('dynamics', gen_dyn, check_dyn, 'all shapes of A, B, c up to 3; negative and positive steps; method names'),
          Cases('symbolic', gen_sym, check_sym, 'offsets, steps and method names of symbolic systems'),
          Cases('pwa', gen_pwa, check_pwa, 'all lists of up to 3 systems (of 3 sizes, linear or affine) and domains (of 2 dimensions)'),
          Cases('operations', gen_ops, check_ops, 'operations refused for what the object is (empty, unbounded, equalities, unstable, uncontrollable, not stored, wrong dimension)')]
