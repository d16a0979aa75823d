"""
C14: purity.  Every public operation is run on every environment of a finite pool (dimensions, equalities, number types, memory
layouts); everything it was given is fingerprinted before and after, the call is repeated and the answers compared; and every
sequence of mutating operations up to the bound is run on one of several objects built from the same arrays, after which the
arrays and all the other objects (descriptions and answers) must be as they were.
"""
import contextlib
import copy
import io
import itertools
import numpy as np
from ..core import Cases, need
from .. import poly
from . import c21
from .c01 import box
from .c26 import answers, close


def snap(o, seen=None):
    """Observable content of an argument."""
    if isinstance(o, np.ndarray):
        return ('array', o.shape, str(o.dtype), o.flags.writeable, np.ascontiguousarray(o).tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(v) for v in o))
    if isinstance(o, dict):
        return ('dict', tuple((k, snap(v)) for k, v in sorted(o.items())))
    if o is None or isinstance(o, (int, float, str, bool, np.generic)):
        return ('value', repr(o))
    n = type(o).__name__
    fields = {'Polyhedron': 'AbCd', 'LinearSystem': ('A', 'B', 'nx', 'nu'), 'AffineSystem': ('A', 'B', 'c', 'nx', 'nu'), 'PieceWiseAffineSystem': ('affine_systems', 'domains', 'nx', 'nu', 'nm'),
              'MultiParametricQuadraticProgram': ('H', 'f', 'g', 'A', 'b'), 'MultiParametricMixedIntegerQuadraticProgram': ('H', 'A', 'b'),
              'ModelPredictiveController': ('S', 'N', 'Q', 'R', 'P', 'D', 'X_N', 'mpqp'), 'HybridModelPredictiveController': ('S', 'N', 'Q', 'R', 'P', 'X_N', 'mpmiqp')}.get(n)
    if fields:
        return (n, tuple(snap(getattr(o, f)) for f in fields))
    return ('object', n, str(o))


def canon(o):
    """Result in a comparable form."""
    if isinstance(o, np.ndarray):
        return o.astype(float).tolist()
    if isinstance(o, (list, tuple)):
        return [canon(v) for v in o]
    if isinstance(o, dict):
        return [[k, canon(v)] for k, v in sorted(o.items())]
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, float, np.generic)):
        return float(o)
    if o is None or isinstance(o, str):
        return o
    n = type(o).__name__
    if n == 'Polyhedron':
        return [canon(getattr(o, f)) for f in 'AbCd']
    if n in ('LinearSystem', 'AffineSystem'):
        return [canon(getattr(o, f)) for f in ('A', 'B', 'c') if hasattr(o, f)]
    if n == 'MultiParametricQuadraticProgram':
        return [canon(getattr(o, f)) for f in ('H', 'f', 'g', 'A', 'b')]
    if n == 'ExplicitSolution':
        return [[canon(list(c.active_set)), canon(c.polyhedron)] for c in o.critical_regions]
    return n


def agree(a, b, tol=1e-6):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * (1 + abs(a)) or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    return a == b


def layout(M, kind):
    M = np.array(M, dtype=float)
    if kind == 'int' and np.array_equal(M, np.round(M)):
        return M.astype(int)
    if kind == 'fortran':
        return np.asfortranarray(M)
    if kind == 'view' and M.ndim == 2:
        big = np.zeros((2 * M.shape[0], M.shape[1]))
        big[::2] = M
        return big[::2]
    return M


# -- operations --------------------------------------------------------------------------------------------------------------------

def env(n, body, kind):
    """Arguments shared by the operations."""
    L = lambda M: layout(M, kind)
    ineqs = box(n, -1, 2) + [(tuple([2] * n), 3)] if body != 'empty' else box(n, 1, -1)
    eqs = [(tuple([1] + [0] * (n - 2) + [1]), 1)] if body == 'tied' and n > 1 else []
    A, b = L([a for a, _ in ineqs]), L([v for _, v in ineqs])
    C, d = L(np.array([a for a, _ in eqs]).reshape(len(eqs), n)), L([v for _, v in eqs])
    rng = np.arange(n)
    return dict(n=n, A=A, b=b, C=C, d=d, f=L(rng - .5 if kind != 'int' else rng - 1), H=L(np.eye(n) * 2 + 1 if kind != 'int' else np.eye(n) * 2), x=L(rng * 0 + .25 if kind != 'int' else rng * 0),
                K=L(-.25 * np.ones((1, n)) if kind != 'int' else np.zeros((1, n))), As=L(np.eye(n, k=1) + .5 * np.eye(n) if kind != 'int' else np.eye(n, k=1)), Bs=L(np.array([[0]] * (n - 1) + [[1]])),
                cs=L(np.ones(n)), Q=L(np.eye(n)), R=L(np.eye(1)), pts=[L(v) for v in itertools.product((-1, 2), repeat=n)], lo=L(-rng - 1), hi=L(rng + 1))


def operations():
    """name -> (function of the environment returning (arguments, call), where it applies)"""
    from pympc.geometry.polyhedron import Polyhedron, convex_hull_method
    from pympc.geometry import utils as gu
    from pympc.optimization import programs as pr
    from pympc.dynamics import discrete_time_systems as ds, discretization_methods as dm, utils as du
    from pympc.control import controllers as co
    ops = {}

    def op(name, when=lambda e: True):
        def deco(f):
            ops[name] = (f, when)
            return f
        return deco
    eq = lambda e: e['C'].shape[0] > 0
    P = lambda e: Polyhedron(e['A'], e['b'], e['C'], e['d'])
    full = lambda e: not eq(e) and e['b'][0] != -1 and e['body'] != 'empty'
    boxes = lambda e: e['body'] != 'empty'

    for solver in ('pnnls', 'gurobi'):
        op('lp-' + solver)(lambda e, s=solver: ([e['f'], e['A'], e['b'], e['C'], e['d']], lambda a: pr.linear_program(*a, solver=s)))
        op('lp-noeq-' + solver)(lambda e, s=solver: ([e['f'], e['A'], e['b']], lambda a: pr.linear_program(*a, solver=s)))
        op('qp-' + solver)(lambda e, s=solver: ([e['H'], e['f'], e['A'], e['b'], e['C'], e['d']], lambda a: pr.quadratic_program(*a, solver=s)))
        op('qp-noeq-' + solver)(lambda e, s=solver: ([e['H'], e['f'], e['A'], e['b']], lambda a: pr.quadratic_program(*a, solver=s)))
    op('miqp')(lambda e: ([e['H'], e['f'], e['A'], e['b'], e['C'], e['d']], lambda a: pr.mixed_integer_quadratic_program(e['n'] - 1, *a)))
    op('constructor')(lambda e: ([e['A'], e['b'], e['C'], e['d']], lambda a: Polyhedron(*a)))
    for q in ('empty', 'bounded', 'radius', 'center', 'vertices'):
        op(q)(lambda e, q=q: ([P(e)], lambda a: getattr(a[0], q)))
    op('minimal_facets')(lambda e: ([P(e)], lambda a: a[0].minimal_facets()))
    op('contains')(lambda e: ([P(e), e['x']], lambda a: a[0].contains(a[1])))
    op('is_included_in')(lambda e: ([P(e), Polyhedron(e['A'][:e['n']], e['b'][:e['n']])], lambda a: [a[0].is_included_in(a[1]), a[1].is_included_in(a[0])]))
    op('intersection')(lambda e: ([P(e), Polyhedron(e['A'][:e['n']], e['b'][:e['n']])], lambda a: [a[0].intersection(a[1]), a[1].intersection(a[0]), a[0].intersection(a[0])]))
    op('cartesian_product')(lambda e: ([P(e), Polyhedron(e['A'][:e['n']], e['b'][:e['n']])], lambda a: [a[0].cartesian_product(a[1]), a[1].cartesian_product(a[0])]))
    op('project_to', full)(lambda e: ([P(e), list(range(e['n']))[::-1]], lambda a: sorted(canon(a[0].project_to(a[1][:1]).vertices))))
    op('project_to-all', full)(lambda e: ([P(e), list(range(e['n']))[::-1]], lambda a: sorted(np.round(v, 6).tolist() for v in a[0].project_to(a[1]).vertices)))
    op('convex_hull_method', lambda e: full(e) and e['n'] > 1)(lambda e: ([e['A'], e['b'], [0]], lambda a: convex_hull_method(*a)[:2]))
    op('convex_hull_method-2', lambda e: full(e) and e['n'] > 1)(lambda e: ([e['A'], e['b'], [1, 0]], lambda a: len(convex_hull_method(*a))))
    op('from_convex_hull', lambda e: e['n'] > 1)(lambda e: ([e['pts']], lambda a: Polyhedron.from_convex_hull(a[0])))
    op('from_bounds')(lambda e: ([e['lo'], e['hi'], list(range(e['n']))[::-1]], lambda a: [Polyhedron.from_bounds(a[0], a[1], a[2], n=e['n']), Polyhedron.from_lower_bound(a[0], a[2], n=e['n']), Polyhedron.from_upper_bound(a[1])]))

    @op('add')
    def _(e):
        def call(a):
            p = P(e)
            p.add_inequality(a[0], a[1], a[3])
            p.add_equality(a[0][:1], a[1][:1], a[3])
            p.add_lower_bound(a[2], a[3])
            p.add_upper_bound(a[2], a[3])
            p.add_bounds(a[2], a[2], a[3])
            p.normalize()
            return p
        return [e['A'], e['b'], e['lo'], list(range(e['n']))[::-1], e['C'], e['d']], call

    @op('normalize')
    def _(e):
        def call(a):
            p = Polyhedron(*a)
            p.normalize()
            return p
        return [e['A'], e['b'], e['C'], e['d']], call

    @op('remove_redundant', boxes)
    def _(e):
        def call(a):
            p = Polyhedron(*a)
            p.remove_redundant_inequalities()
            return p
        return [e['A'], e['b'], e['C'], e['d']], call
    op('plot', lambda e: e['n'] == 2 and boxes(e) and not eq(e))(lambda e: ([P(e), [0, 1]], lambda a: a[0].plot(residual_dimensions=a[1])))
    # linear algebra
    op('nullspace')(lambda e: ([e['A']], lambda a: gu.nullspace_basis(a[0])))
    op('independent_rows')(lambda e: ([e['A']], lambda a: gu.linearly_independent_rows(a[0])))
    op('plane', lambda e: e['n'] > 1)(lambda e: ([[layout(v, 'float') for v in np.eye(e['n']) + 1]], lambda a: gu.plane_through_points(a[0])))
    op('same_rows')(lambda e: ([e['A'], e['A'][::-1].copy()], lambda a: [gu.same_rows(*a), gu.same_rows(*a, normalize=False), gu.same_rows(2 * a[0], a[1])]))
    op('same_vectors')(lambda e: ([e['pts'], e['pts'][::-1]], lambda a: gu.same_vectors(*a)))
    # dynamics
    for m in ('zero_order_hold', 'explicit_euler'):
        op(m)(lambda e, m=m: ([e['As'], e['Bs'], e['cs']], lambda a: getattr(dm, m)(a[0], a[1], a[2], .5)))
        op('linear-' + m)(lambda e, m=m: ([e['As'], e['Bs']], lambda a: ds.LinearSystem.from_continuous(a[0], a[1], .5, m)))
        op('affine-' + m)(lambda e, m=m: ([e['As'], e['Bs'], e['cs']], lambda a: ds.AffineSystem.from_continuous(a[0], a[1], a[2], .5, m)))
    op('check_affine_system')(lambda e: ([e['As'], e['Bs'], e['cs']], lambda a: du.check_affine_system(a[0], a[1], a[2], .5)))
    us = lambda e: [layout([k - 1.], e['kind']) for k in range(3)]
    op('linear')(lambda e: ([e['As'], e['Bs'], e['x'], us(e), e['K']], lambda a: [S.simulate(a[2], a[3]) + S.simulate_closed_loop(a[2], 3, a[4]) + [S.controllable] + list(S.condense(3)) for S in [ds.LinearSystem(a[0], a[1])]]))
    op('affine')(lambda e: ([e['As'], e['Bs'], e['cs'], e['x'], us(e)], lambda a: [S.simulate(a[3], a[4]) + list(S.condense(3)) for S in [ds.AffineSystem(*a[:3])]]))
    op('dare')(lambda e: ([ds.LinearSystem(e['As'], e['Bs']), e['Q'], e['R']], lambda a: a[0].solve_dare(a[1], a[2])))

    @op('pwa', boxes)
    def _(e):
        n = e['n']
        S = [ds.LinearSystem(e['As'], e['Bs']), ds.AffineSystem(e['As'], e['Bs'], e['cs'])]
        D = [poly.real(box(n + 1, -2, 0), [], n + 1), poly.real(box(n + 1, 0, 2), [], n + 1)]
        return [S, D, e['x'], us(e)[1:2]], lambda a: [[W.get_mode(a[2], np.zeros(1)), W.is_well_posed(), list(W.condense([0, 1, 0])), W.simulate(a[2], [np.zeros(1)])] for W in [ds.PieceWiseAffineSystem(a[0], a[1])]]
    op('mode-sequences', boxes)(lambda e: ([[ds.AffineSystem(2 * e['As'], e['Bs'], e['cs']), ds.AffineSystem(e['As'], e['Bs'], e['cs'])], [0, 1, 1], [1], [0, -1], [-2, -1, 0, 1]],
                                           lambda a: [list(ds.condense_pwa_system(a[0], z)) for z in a[1:]]))
    ok = lambda e: boxes(e) and not eq(e)
    op('mcais', ok)(lambda e: ([e['As'], Polyhedron(e['A'], e['b'])], lambda a: ds.mcais(*a)))
    op('mcais-method', ok)(lambda e: ([ds.LinearSystem(e['As'], e['Bs']), e['K'], poly.real(box(e['n'] + 1, -1, 1), [], e['n'] + 1)], lambda a: a[0].mcais(a[1], a[2])))

    def mpc(e):
        n = e['n']
        return [ds.LinearSystem(e['As'], e['Bs']), e['Q'], e['R'], e['Q'], poly.real(box(n + 1, -2, 2), [], n + 1), Polyhedron(e['A'], e['b'])]
    op('mpc', lambda e: ok(e) and e['kind'] != 'int')(lambda e: (mpc(e) + [e['x']], lambda a: [[C.feedforward(a[6]), C.feedback(a[6]), C.mpqp] for C in [co.ModelPredictiveController(a[0], 2, *a[1:6])]]))

    @op('mpc-explicit', lambda e: ok(e) and e['kind'] != 'int' and e['n'] < 3)
    def _(e):
        def call(a):
            C = co.ModelPredictiveController(a[0], 2, *a[1:6])
            before = snap(C)
            C.store_explicit_solution()
            r = [C.feedforward_explicit(a[6]), C.feedback_explicit(a[6]), C.feedforward(a[6])]
            C.mpqp.get_feasible_set()
            C.mpqp.solve(a[6])
            need(snap(C) == before, 'queries changed the controller or what it was built from')
            return r
        return mpc(e) + [e['x']], call

    @op('hybrid', lambda e: ok(e) and e['kind'] != 'int' and e['n'] < 3)
    def _(e):
        n = e['n']
        W = ds.PieceWiseAffineSystem([ds.AffineSystem(e['As'], e['Bs'], e['cs'] * 0.), ds.AffineSystem(e['As'], e['Bs'], e['cs'] * .5)], [poly.real(box(n + 1, -2, 0), [], n + 1), poly.real(box(n + 1, -2, 2), [], n + 1)])

        def call(a):
            C = co.HybridModelPredictiveController(a[0], 2, *a[1:5])
            before = snap(C)
            seq = [0, 1]
            r = [C.feedforward(a[5])[0], C.feedforward(a[5])[3], C.feedback(a[5]), C.get_mpqp(seq)]
            need(seq == [0, 1] and snap(C) == before, 'queries changed the controller or what it was built from')
            return r
        return [W, e['Q'], e['R'], e['Q'], Polyhedron(e['A'], e['b']), e['x']], call

    @op('mpqp', lambda e: ok(e) and e['kind'] != 'int')
    def _(e):
        from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
        n = e['n']
        H = {'uu': e['H'], 'ux': e['Q'], 'xx': e['Q']}
        f = {'u': e['f'], 'x': e['f']}
        A = {'u': e['A'], 'x': layout(np.vstack((e['A'][::-1] * .25,)), 'float')}

        def call(a):
            M = MultiParametricQuadraticProgram(*a[:5])
            act = [0]
            cr = M.explicit_solve_given_active_set(act)
            guess = [1]
            cp = M.explicit_solve_given_point(a[5], guess)
            need(act == [0] and guess == [1], 'active set modified')
            out = [M.solve(a[5]), canon(cr.polyhedron) if cr else None, canon(cp.polyhedron) if cp else None]
            if n == 1:
                s = M.explicit_solve()
                before = [snap(c.polyhedron) for c in s.critical_regions]
                out += [s.u(a[5]), s.p(a[5]), s.V(a[5])]
                for c in s.critical_regions:
                    c.contains(a[5]), c.minimal_facets(), c.u(a[5]), c.p(a[5]), c.V(a[5])
                need(before == [snap(c.polyhedron) for c in s.critical_regions], 'queries changed a critical region')
                out += [s.u(a[5]), s.p(a[5]), s.V(a[5])]
            return out
        return [H, f, 1.5, A, e['b'], e['x']], call
    return ops


_OPS = None


def ops():
    global _OPS
    if _OPS is None:
        _OPS = operations()
    return _OPS


def gen_ops(tier):
    for n in (1, 2, 3):
        for body in ('box', 'tied', 'empty'):
            for kind in ('float', 'int', 'fortran', 'view'):
                e = env(n, body, kind)
                e.update(body=body, kind=kind)
                for name, (f, when) in ops().items():
                    if body == 'tied' and n == 1:
                        continue
                    if when(e):
                        yield [name, n, body, kind]


def check_ops(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    name, n, body, kind = case
    e = env(n, body, kind)
    e.update(body=body, kind=kind)
    f, when = ops()[name]
    ctx.state()
    args, call = f(e)
    whole = [snap(args), snap(e)]
    np.random.seed(1)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            r1 = canon(call(args))
            for label, s, now in zip(('arguments', 'environment'), whole, (snap(args), snap(e))):
                need(s == now, '%s modified its %s', name, label)
            r2 = canon(call(args))
            need([snap(args), snap(e)] == whole, '%s modified its arguments on the second call', name)
            args2, call2 = f(e)
            r3 = canon(call2(args2))
        except ValueError as err:
            need('read-only' not in str(err), '%s writes into its arguments: %s', name, err)
            if n == 1 and body == 'tied' or (name in ('remove_redundant', 'project_to') and body == 'empty'):
                ctx.outcome('refused')
                return
            raise
    ctx.step(3)
    ctx.outcome('pure')
    need(agree(r1, r2), '%s answered %r, then %r', name, r1, r2)
    need(agree(r1, r3), '%s answered %r, and on fresh objects %r', name, r1, r3)


# -- objects that share arrays -------------------------------------------------------------------------------------------------------

MUT = ['add_inequality', 'add_equality', 'add_lower_bound', 'add_upper_bound', 'add_bounds', 'normalize', 'remove_redundant_inequalities', 'symbolic']
QRY = ['answers', 'project', 'plot']


def mutate(p, m, n):
    e0 = np.zeros((1, n))
    e0[0, 0] = 2.
    if m == 'add_inequality':
        p.add_inequality(e0, np.array([1.]))
    elif m == 'add_equality':
        p.add_equality(np.ones((1, 1)), np.array([.25]), [n - 1])
    elif m == 'add_lower_bound':
        p.add_lower_bound(np.full(n, -.5))
    elif m == 'add_upper_bound':
        p.add_upper_bound(np.full(1, .75), [n - 1])
    elif m == 'add_bounds':
        p.add_bounds(np.full(n, -.75), np.full(n, .5))
    elif m == 'normalize':
        p.normalize()
    elif m == 'symbolic':
        import sympy as sp
        x = sp.Matrix(sp.symbols('x0:%d' % n))
        p.add_symbolic_inequality(x, sp.Matrix([3 * x[0] - 1]))
    elif m == 'remove_redundant_inequalities':
        try:
            p.remove_redundant_inequalities()
        except ValueError:
            pass
    elif m == 'answers':
        p.empty, p.bounded, p.radius, p.center, p.vertices, p.minimal_facets()
    elif m == 'project':
        try:
            np.random.seed(0)
            p.project_to([0])
        except ValueError:
            pass
    elif m == 'plot':
        p.is_included_in(p)
        p.contains(np.zeros(n))


def gen_share(tier):
    K = 2 if tier == 'quick' else 3
    for n in (2, 3):
        for body in ('box', 'tied', 'empty'):
            for kind in ('float', 'int', 'view'):
                for target in ('self', 'copy', 'intersection', 'twin', 'product', 'convex'):
                    for k in range(1, K + 1):
                        for seq in itertools.product(MUT + QRY, repeat=k):
                            if seq.count('add_equality') > 1 or (n == 3 and k == 3) or (body == 'tied' and n == 2 and 'add_equality' in seq):
                                continue
                            if tier == 'quick' and k == 2 and n == 3 and (kind != 'float' or target in ('product', 'convex')):
                                continue
                            yield [n, body, kind, target, list(seq)]


def check_share(case, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n, body, kind, target, seq = case
    ctx.state()
    e = env(n, body, kind)
    P = Polyhedron(e['A'], e['b'], e['C'], e['d'])
    answers(P, n, False) if len(seq) % 2 else None
    T = Polyhedron(e['A'], e['b'], e['C'], e['d'])
    objs = {'self': P, 'twin': T, 'copy': copy.copy(P), 'intersection': P.intersection(Polyhedron(e['A'], e['b']))}
    objs['product'] = P.cartesian_product(T)
    if target == 'convex':
        objs['convex'] = Polyhedron.from_convex_hull(e['pts'])
    before = {k: (snap(o), answers(o, n, False) if k not in ('product',) else None) for k, o in objs.items() if k != target}
    shared = snap(e)
    o = objs[target]
    m = 2 * n if target == 'product' else n
    for s in seq:
        mutate(o, s, m)
        ctx.step()
    need(snap(e) == shared, '%r on one polyhedron modified the arrays it was built from', seq)
    for k, (s, a) in before.items():
        need(snap(objs[k]) == s, '%r on %s changed the description of %s', seq, target, k)
        if a is not None:
            got = answers(objs[k], n, False)
            need(close(a, got), '%r on %s changed the answers of %s: %r -> %r', seq, target, k, a, got)
            # and a fresh object built from the same arrays agrees with it
            fresh = Polyhedron(objs[k].A, objs[k].b, objs[k].C, objs[k].d)
            need(agree(a, answers(fresh, n, False)), '%s and a fresh polyhedron with the same description answer differently', k)
    ctx.outcome(target)


# -- systems and controllers that share polyhedra and matrices -----------------------------------------------------------------------------

def gen_reuse(tier):
    names = ['dare', 'mcais', 'mpc', 'explicit', 'feasible', 'hybrid', 'simulate', 'pwa']
    for s in ('double', 'scalar', 'coupled-2u'):
        for seq in itertools.product(names, repeat=3 if tier == 'thorough' else 2):
            yield [s, list(seq)]


def check_reuse(case, ctx):
    """One system, one stage set, one terminal set used for everything, in every order."""
    from pympc.control.controllers import ModelPredictiveController, HybridModelPredictiveController
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem
    s, seq = case
    ctx.state()
    A, B = (np.array(M, dtype=float) for M in c21.SYSTEMS[s])
    nx, nu = B.shape
    D = poly.real(*(c21.domains(nx, nu)['asym'] + (nx + nu,)))
    T = poly.real(*(c21.terminals(nx)['asym'] + (nx,)))
    Q, R = np.eye(nx), np.eye(nu)
    S = LinearSystem(A, B)
    x = np.full(nx, .125)
    world = [A, B, D, T, Q, R, S, x]
    before = snap(world)
    aD, aT = answers(D, nx + nu, False), answers(T, nx, False)

    def run(name):
        np.random.seed(0)
        if name == 'dare':
            return S.solve_dare(Q, R)
        if name == 'mcais':
            return S.mcais(S.solve_dare(Q, R)[1], D)
        if name == 'simulate':
            return [S.simulate(x, [np.zeros(nu), np.ones(nu)]), S.condense(2), S.controllable]
        if name in ('mpc', 'explicit', 'feasible'):
            C = ModelPredictiveController(S, 2, Q, R, Q, D, T)
            if name == 'explicit':
                if nu > 1:
                    return None
                C.store_explicit_solution()
                return [C.feedforward_explicit(x)]
            if name == 'feasible':
                if nx + 2 * nu > 5:
                    return None
                return sorted(np.round(v, 6).tolist() for v in C.mpqp.get_feasible_set().vertices)
            return [C.feedforward(x), C.mpqp]
        W = PieceWiseAffineSystem([S, AffineSystem(A, B, .25 * np.ones(nx))], [D, D])
        if name == 'pwa':
            return [W.get_mode(x, np.zeros(nu)), W.is_well_posed(), W.simulate(x, [np.zeros(nu)]), W.condense([0, 1])]
        C = HybridModelPredictiveController(W, 1, Q, R, Q, T)
        return [C.feedforward(x)[3], C.get_mpqp([1])]
    want = {}
    for name in seq:
        r = canon(run(name))
        ctx.step()
        need(snap(world) == before, '%s (in %r) modified the matrices or polyhedra it was given', name, seq)
        if name in want:
            need(agree(want[name], r), '%s answered %r, later %r', name, want[name], r)
        want[name] = r
    need(close(answers(D, nx + nu, False), aD) and close(answers(T, nx, False), aT), 'the answers of the shared polyhedra changed')
    # the last answer equals the one on a world of its own
    if len(seq) > 1:
        key = (s, seq[-1])
        if key not in _FRESH:
            _FRESH[key] = None
            _FRESH[key] = check_reuse([s, [seq[-1]]], ctx)
        need(agree(_FRESH[key], want[seq[-1]]), '%s answered %r after %r, and %r on objects of its own', seq[-1], want[seq[-1]], seq[:-1], _FRESH[key])
    ctx.outcome('independent')
    return want[seq[-1]]


_FRESH = {}


# -- one object asked again and again --------------------------------------------------------------------------------------------------

def live(name):
    """(object, {question: function of (object, x)}, points)"""
    from pympc.control.controllers import ModelPredictiveController, HybridModelPredictiveController
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem
    from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
    f = lambda M: np.array(M, dtype=float)
    D = lambda: poly.real(c21.bounds([-3, -3, -1], [3, 2, 1.5]), [], 3)
    T = lambda: poly.real(c21.bounds([-1, -1], [1.25, 1]), [], 2)
    A, B, c = f([[1, 1], [0, 1]]), f([[.5], [1]]), f([.25, -.5])
    Q, R = f([[1, 0], [0, 2]]), f([[1]])
    X2 = [[.5, -.25], [-.25, .5], [1.5, .5], [9., 0.], [-.5, .25]]
    if name == 'polyhedron':
        o = poly.real(c21.bounds([-1, -2], [2, 1]) + [((1, 2), 3)], [], 2)
        return o, {'contains': lambda o, x: o.contains(x), 'contains-tol': lambda o, x: o.contains(x, 8.5), 'included': lambda o, x: o.is_included_in(poly.real(c21.bounds([-1, -2], [2 - x[0], 2]), [], 2)),
                   'intersection': lambda o, x: o.intersection(poly.real([((1, 1), x[0])], [], 2)).vertices, 'project': lambda o, x: sorted(canon(o.project_to([int(x[0] > 0)]).vertices)), 'facets': lambda o, x: o.minimal_facets()}, X2
    if name == 'linear':
        return LinearSystem(A, B), {'simulate': lambda o, x: o.simulate(x, [x[:1], x[1:]]), 'loop': lambda o, x: o.simulate_closed_loop(x, 3, f([[-.5, -1]])), 'loop1': lambda o, x: o.simulate_closed_loop(x, 1, f([x])),
                                    'condense': lambda o, x: o.condense(1 + int(x[0] > 0)), 'condense3': lambda o, x: o.condense(3), 'dare': lambda o, x: o.solve_dare(Q * (1 + abs(x[0])), R), 'mcais': lambda o, x: o.mcais(o.solve_dare(Q, R)[1], D()), 'controllable': lambda o, x: o.controllable}, X2
    if name == 'affine':
        return AffineSystem(A, B, c), {'simulate': lambda o, x: o.simulate(x, [x[:1], x[1:]]), 'simulate1': lambda o, x: o.simulate(x, [x[:1]]), 'condense': lambda o, x: o.condense(1 + int(x[0] > 0)), 'condense3': lambda o, x: o.condense(3)}, X2
    if name in ('pwa', 'hybrid'):
        W = PieceWiseAffineSystem([AffineSystem(f([[1]]), f([[1]]), f([1])), AffineSystem(f([[-.5]]), f([[1]]), f([-.25])), AffineSystem(f([[.5]]), f([[-1]]), f([0]))],
                                  [poly.real(c21.bounds([-2, -1], [0, 1]), [], 2), poly.real(c21.bounds([0, -1], [2, 0]), [], 2), poly.real(c21.bounds([0, 0], [2, 1]), [], 2)])
        X1 = [[-1.5], [.5], [1.25], [5.], [-.5]]
        if name == 'pwa':
            return W, {'mode': lambda o, x: o.get_mode(x, f([-.5])), 'mode2': lambda o, x: o.get_mode(x, f([.5])), 'simulate': lambda o, x: o.simulate(x, [f([.5]), f([-.5])]), 'simulate2': lambda o, x: o.simulate(x, [f([-.5])]),
                       'posed': lambda o, x: o.is_well_posed(), 'condense': lambda o, x: o.condense([0, 1, 2]), 'condense2': lambda o, x: o.condense([int(x[0] > 0), 0])}, X1
        C = HybridModelPredictiveController(W, 2, f([[1]]), f([[1]]), f([[2]]), poly.real(c21.bounds([-1.5], [1.5]), [], 1))
        return C, {'feedforward': lambda o, x: o.feedforward(x)[3], 'inputs': lambda o, x: o.feedforward(x)[0], 'feedback': lambda o, x: o.feedback(x), 'fixed': lambda o, x: o.get_mpqp([int(x[0] > 0), 1]).solve(x)['min'],
                   'fixed-program': lambda o, x: o.get_mpqp([2, 0]), 'modes': lambda o, x: o.feedforward(x)[2]}, X1
    if name in ('mpc', 'mpqp'):
        C = ModelPredictiveController(LinearSystem(A, B), 2, Q, R, Q, D(), T())
        if name == 'mpqp':
            o = C.mpqp
            o = MultiParametricQuadraticProgram(o.H, {'u': f([.5, -.25]), 'x': f([1, 0])}, 1.5, o.A, o.b)
            region = lambda r: None if r is None else [canon(r.polyhedron), canon(r.u(f([.1, .2]))), canon(r.V(f([.1, .2])))]
            return o, {'solve': lambda o, x: o.solve(x), 'point': lambda o, x: region(o.explicit_solve_given_point(x)), 'guess': lambda o, x: region(o.explicit_solve_given_point(x, [0])), 'active': lambda o, x: region(o.explicit_solve_given_active_set([int(x[0] > 0)])),
                       'none': lambda o, x: region(o.explicit_solve_given_active_set([])), 'explicit': lambda o, x: [s.u(x) for s in [o.explicit_solve()]] + [s.V(x) for s in [o.explicit_solve()]], 'feasible': lambda o, x: sorted(np.round(v, 6).tolist() for v in o.get_feasible_set().vertices)}, X2
        return C, {'feedforward': lambda o, x: o.feedforward(x), 'feedback': lambda o, x: o.feedback(x), 'solve': lambda o, x: o.mpqp.solve(x), 'store': lambda o, x: o.store_explicit_solution(),
                   'explicit': lambda o, x: (o.store_explicit_solution(), o.feedforward_explicit(x))[1], 'explicit-feedback': lambda o, x: (o.store_explicit_solution(), o.feedback_explicit(x))[1]}, X2
    if name in ('solution', 'region'):
        C = ModelPredictiveController(LinearSystem(A, B), 2, Q, R, Q, D(), T())
        s = C.mpqp.explicit_solve()
        q = {'u': lambda o, x: o.u(x), 'p': lambda o, x: o.p(x), 'V': lambda o, x: o.V(x)}
        if name == 'solution':
            return s, q, X2
        r = [t for t in s.critical_regions if len(t.active_set) == 1][0]
        q.update({'contains': lambda o, x: o.contains(x), 'facets': lambda o, x: o.minimal_facets()})
        return r, q, X2
    raise ValueError(name)


SLOW = {'mpqp': ('explicit', 'feasible'), 'mpc': ('store', 'explicit', 'explicit-feedback'), 'hybrid': ('feedforward', 'inputs', 'modes', 'feedback'), 'linear': ('mcais',), 'polyhedron': ('project', 'intersection')}


def gen_live(tier):
    for name in ('polyhedron', 'linear', 'affine', 'pwa', 'hybrid', 'mpc', 'mpqp', 'solution', 'region'):
        o, qs, X = live(name)
        letters = [[q, k] for q in qs for k in range(len(X) if tier == 'thorough' and q not in SLOW.get(name, ()) else (3 if q not in SLOW.get(name, ()) else 2))]
        for a in letters:
            for inplace in (0, 1):
                block = [[a, b] for b in letters]
                if tier == 'thorough' and len(letters) < 16:
                    block += [[a, b, c] for b in letters for c in letters]
                # a block is the set of histories that start with a
                for i in range(0, len(block), 12):
                    yield [name, block[i:i + 12], inplace]


_LIVE = {}


def check_live(case, ctx):
    name, hists, inplace = case
    for h in hists:
        obj, qs, X = live(name)
        buf = np.zeros(len(X[0]))
        for q, k in h:
            x = np.array(X[k], dtype=float)
            if inplace:
                buf[:] = x
                x = buf
            np.random.seed(0)
            got = canon(qs[q](obj, x))
            ctx.state()
            ctx.step()
            need(x.tolist() == X[k], '%s.%s modified the point it was given', name, q)
            key = (name, q, k)
            if key not in _LIVE:
                np.random.seed(0)
                fresh = live(name)
                _LIVE[key] = canon(fresh[1][q](fresh[0], np.array(X[k], dtype=float)))
            need(agree(_LIVE[key], got, 1e-5), '%s: in the history %r, the answer to %r at %r is %r; on an object of its own it is %r', name, h, q, X[k], got, _LIVE[key])
        # once more, right after
        np.random.seed(0)
        got = canon(qs[h[-1][0]](obj, np.array(X[h[-1][1]], dtype=float)))
        ctx.step()
        need(agree(_LIVE[name, h[-1][0], h[-1][1]], got, 1e-5), '%s: %r asked twice in a row (history %r): %r, on an object of its own %r', name, h[-1][0], h, got, _LIVE[name, h[-1][0], h[-1][1]])
        ctx.outcome(name)


LAYERS = [Cases('operations', gen_ops, check_ops, 'every public operation x dimension 1..3 x {box, with equality, empty} x {float, int, Fortran order, strided view}; arguments fingerprinted, call repeated on the same and on fresh objects', time_limit=200.),
          Cases('shared-arrays', gen_share, check_share, 'all sequences of up to 2 (thorough 3) of 8 mutations and 3 query groups on one of 6 objects built from the same arrays'),
          Cases('shared-world', gen_reuse, check_reuse, 'all sequences of 2 (thorough 3) of 8 design steps on one system, stage set and terminal set', time_limit=200.),
          Cases('live-objects', gen_live, check_live, 'polyhedron, linear/affine/PWA system, MPC, hybrid MPC, parametric program, explicit solution, critical region: all histories of 2 (thorough 3) questions x points on one object, the point array new or overwritten, last question repeated; every answer equals that of an object of its own', time_limit=300., nshards=128)]


# -- lists given in any order ------------------------------------------------------------------------------------------------------

LISTS = ('add_lower_bound', 'add_upper_bound', 'add_bounds', 'add_inequality', 'add_equality', 'from_lower_bound', 'from_upper_bound', 'from_bounds', 'project_to', 'active_set', 'guess', 'condense', 'get_mpqp',
         'simulate', 'simulate_pwa', 'hull', 'plane', 'same_vectors', 'pwa', 'plot')


def gen_lists(tier):
    for op in LISTS:
        for k in (1, 2, 3):
            for perm in itertools.permutations(range(3), k):
                yield [op, list(perm)]
        yield [op, [2, 2, 0]]
        yield [op, [1, 0, 1, 2]]


def check_lists(case, ctx):
    """The lists of the caller (indices, dimensions, active sets, mode sequences, points, inputs, systems) stay as they are."""
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.geometry.utils import plane_through_points, same_vectors
    from pympc.control.controllers import HybridModelPredictiveController
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem
    from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
    op, idx = case
    k = len(idx)
    twice = len(set(idx)) < k
    ctx.state()
    box = lambda n: Polyhedron.from_bounds(-2. * np.ones(n), np.ones(n))
    mine = [list(idx)]
    vec = [np.array([float(i), 1. - i, .5 * i * i]) for i in idx]
    p = box(3)
    if op in ('add_lower_bound', 'add_upper_bound'):
        getattr(p, op)(np.arange(k, dtype=float) - .5, mine[0])
    elif op == 'add_bounds':
        p.add_bounds(-np.ones(k), np.arange(k, dtype=float), mine[0])
    elif op in ('add_inequality', 'add_equality'):
        getattr(p, op)(np.ones((1, k)), np.ones(1), mine[0])
    elif op in ('from_lower_bound', 'from_upper_bound'):
        getattr(Polyhedron, op)(np.arange(k, dtype=float), mine[0], 3)
    elif op == 'from_bounds':
        Polyhedron.from_bounds(-np.ones(k), np.arange(k, dtype=float), mine[0], 3)
    elif op == 'project_to':
        if twice:
            ctx.skip('repeated index')
            return
        np.random.seed(0)
        p.project_to(mine[0])
    elif op in ('active_set', 'guess'):
        if twice:
            ctx.skip('repeated index')
            return
        e, z = np.eye(3), np.zeros(3)
        q = MultiParametricQuadraticProgram({'uu': e, 'ux': e, 'xx': 2 * e}, {'u': z, 'x': z}, 0., {'u': np.vstack((e, -e)), 'x': np.zeros((6, 3))}, np.ones(6))
        if op == 'active_set':
            q.explicit_solve_given_active_set(mine[0])
        else:
            q.explicit_solve_given_point(np.array([-3., .5, .25]), mine[0])
    elif op in ('condense', 'get_mpqp', 'simulate_pwa', 'pwa'):
        sys_ = [AffineSystem(np.eye(1) * (.5 + i), np.eye(1), np.ones(1) * i) for i in range(3)]
        doms = [Polyhedron.from_bounds(np.array([2. * i - 3, -1.]), np.array([2. * i - 1, 1.])) for i in range(3)]
        mine = [list(idx), [sys_[i] for i in range(3)], [doms[i] for i in range(3)]]
        if op == 'pwa':
            mine = [[sys_[i] for i in idx], [doms[i] for i in idx]]
            S = PieceWiseAffineSystem(*mine)
            keep = [list(m) for m in ([sys_[i] for i in idx], [doms[i] for i in idx])]
            S.is_well_posed(), S.get_mode(np.zeros(1), np.zeros(1)), S.condense([0, k - 1])
            need(all(len(a) == len(b) and all(s is t for s, t in zip(a, b)) for a, b in zip(mine, keep)), 'the list of systems or of domains was modified')
            ctx.step()
            ctx.outcome(op)
            return
        S = PieceWiseAffineSystem(mine[1], mine[2])
        if op == 'condense':
            S.condense(mine[0])
        elif op == 'get_mpqp':
            HybridModelPredictiveController(S, 1, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-np.ones(1), np.ones(1))).get_mpqp(mine[0])
        else:
            u = [np.array([.125 * i]) for i in idx]
            mine.append(u)
            want = [v.copy() for v in u]
            try:
                S.simulate(np.array([-2.]), u)
            except ValueError:
                ctx.outcome('left the domains')
            need(len(u) == len(want) and all(np.array_equal(a, b) for a, b in zip(u, want)), 'the list of inputs was modified')
        need(len(mine[1]) == 3 and all(a is b for a, b in zip(mine[1], sys_)) and all(a is b for a, b in zip(mine[2], doms)), 'the list of systems or of domains was modified')
    elif op == 'simulate':
        u = [v[:1] for v in vec]
        want = [v.copy() for v in u]
        LinearSystem(np.eye(1), np.eye(1)).simulate(np.ones(1), u)
        need(len(u) == len(want) and all(np.array_equal(a, b) for a, b in zip(u, want)), 'the list of inputs was modified')
    elif op == 'hull':
        pts = [np.array(v) for v in ([0., 0.], [1., 0.], [0., 1.], [-1., -2.])]
        pts = [pts[i] for i in idx] + [pts[i] for i in range(4) if i not in idx]
        want = list(pts)
        vals = [v.copy() for v in pts]
        Polyhedron.from_convex_hull(pts)
        need(len(pts) == len(want) and all(a is b and np.array_equal(a, c) for a, b, c in zip(pts, want, vals)), 'the list of points was modified')
    elif op == 'plane':
        if k != 3 or twice:
            ctx.skip('not three points')
            return
        pts = [np.eye(3)[i] * (i + 1) for i in idx]
        want, vals = list(pts), [v.copy() for v in pts]
        plane_through_points(pts)
        need(len(pts) == 3 and all(a is b and np.array_equal(a, c) for a, b, c in zip(pts, want, vals)), 'the list of points was modified')
    elif op == 'same_vectors':
        a, b = list(vec), list(vec[::-1])
        need(same_vectors(a, b), 'a list and its reversal are not the same')
        need(len(a) == k and all(s is t for s, t in zip(a, vec)) and all(s is t for s, t in zip(b, vec[::-1])), 'a list of vectors was modified')
    elif op == 'plot':
        if k != 2:
            ctx.skip('not two dimensions')
            return
        import matplotlib.pyplot as plt
        p.plot(mine[0])
        from pympc.plot import plot_state_space_trajectory
        plot_state_space_trajectory([np.array([float(t), 1., t * t]) for t in range(3)], mine[0])
        plt.close('all')
    ctx.step()
    ctx.outcome(op)
    need(op == 'hull' or mine[0] == list(idx), '%s modified the list %r it was given: %r', op, idx, mine[0])


LAYERS.append(Cases('lists', gen_lists, check_lists, 'every function that takes a list, with all orders of 1..3 entries (and repeated ones where they make sense)'))
