"""
C05: every way of writing a polyhedron denotes exactly the described set, and membership decides exactly that set.

Transition system: states are polyhedra under construction (abstractly: the list of described constraints; concretely: a
Polyhedron object), initial states are the constructors, transitions the add_* methods.  All sequences up to the bound are
replayed; in every state the object's constraints are compared exactly with the described set, and contains() is asked on
a full grid of points, including points that miss the boundary by a little less / a little more than the tolerance.
"""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Cases, Layer, need
from ..ref import Poly, dot
from .. import poly


# -- abstract semantics of the descriptions ------------------------------------------------------------------------------

def unit(n, i, s=1):
    return tuple(s if k == i else 0 for k in range(n))


def lower(n, vals, idx):
    return [(unit(n, i, -1), -v) for i, v in zip(idx, vals)]


def upper(n, vals, idx):
    return [(unit(n, i), v) for i, v in zip(idx, vals)]


def lift(n, rows, idx):
    out = []
    for a, b in rows:
        r = [0] * n
        for i, t in zip(idx, a):
            r[i] += t
        out.append((tuple(r), b))
    return out


def index_sets(n):
    out = [None]
    for k in range(1, n + 1):
        out += [list(p) for p in itertools.permutations(range(n), k)]
    return out


VAL = {1: [1.], 2: [1., -2.], 3: [1., -2., 3.], 4: [1., -2., 3., .5]}
LOW = {1: [-1.], 2: [-1., -3.], 3: [-1., -3., .5], 4: [-1., -3., .5, -2.]}


def letters(n):
    """All add_* calls for dimension n, as JSON: [method, args..., indices]."""
    out = []
    for idx in index_sets(n):
        k = n if idx is None else len(idx)
        out.append(['lb', LOW[k], idx])
        out.append(['ub', VAL[k], idx])
        out.append(['bounds', LOW[k], VAL[k], idx])
        row = [[2, -1, 3, 1][:k]]
        out.append(['ineq', row, [2.], idx])
        out.append(['eq', row, [-1.], idx])
        if k > 1:
            out.append(['ineq', [[1, 1, 0, 0][:k], [0, -3, 1, 2][:k]], [1., 4.], idx])
    out.append(['lbf', -.5, [n - 1]])
    out.append(['ubf', .75, [0]])
    if n > 1:
        out.append(['eq', [[1] * n, [1] + [0] * (n - 1)], [0., -1.], None])
        out.append(['lb', [.25, .5], [-1, 0]])
        # an index given twice
        out.append(['ineq', [[1, 1]], [1.], [n - 1, n - 1]])
        out.append(['eq', [[1, 2, -1]], [1.], [0, n - 1, 0]])
        out.append(['ub', [1., .5], [0, 0]])
        out.append(['bounds', [-2., -1., -1.5], [3., 2., 1.], [n - 1, 0, n - 1]])
    # rows without any variable: vacuous, or impossible to satisfy
    out.append(['eq', [[0] * n], [2.], None])
    out.append(['eq', [[0] * n, [1] * n], [0., 1.], None])
    out.append(['ineq', [[0] * n, [1] + [0] * (n - 1)], [-1., 2.], None])
    out.append(['ineq', [[0]], [1.], [n - 1]])
    out.append(['symineq', n])
    out.append(['symeq', n])
    return out


def starts(n):
    out = [['ctor', [], [], [], []], ['ctor', [[1] * n], [3.], [], []], ['ctor', [[1] * n, [-1] + [0] * (n - 1)], [3., 5.], [[0] * (n - 1) + [2]], [1.]]]
    if n > 1:
        out.append(['ctor', [unit(n, 0)], [1.], [[1] + [0] * (n - 2) + [-1], [1] * n], [0., -3.]])
    for idx in (index_sets(n) if n < 4 else [None, [3, 1, 0, 2], [2], [3, 0], [0, 1, 3]]):
        k = n if idx is None else len(idx)
        out.append(['flb', LOW[k], idx])
        out.append(['fub', VAL[k], idx])
        out.append(['fb', LOW[k], VAL[k], idx])
    out.append(['fsym', n, False])
    out.append(['fsym', n, True])
    return out


def sym_rows(n):
    """The symbolic expressions used: (sum_i (i+1) x_i - 3, -x_last + x_0/2 + 1)."""
    a1 = [i + 1 for i in range(n)]
    a2 = [Fraction(0)] * n
    a2[-1] -= 1
    a2[0] += Fraction(1, 2)
    return [(a1, 3), (a2, -1)]


def sym_exprs(n):
    import sympy as sp
    x = sp.Matrix(sp.symbols('x0:%d' % n))
    e1 = sum(((i + 1) * x[i] for i in range(n)), sp.Integer(0)) - 3
    e2 = -x[n - 1] + x[0] / 2 + 1
    return x, sp.Matrix([e1, e2])


def sem(op, n):
    """(inequalities, equalities) described by a letter."""
    k = op[0]
    idx = op[-1] if op[-1] is not None else list(range(n))
    if k in ('lb', 'flb'):
        return lower(n, op[1], [i % n for i in idx]), []
    if k in ('ub', 'fub'):
        return upper(n, op[1], [i % n for i in idx]), []
    if k in ('bounds', 'fb'):
        return lower(n, op[1], idx) + upper(n, op[2], idx), []
    if k == 'ineq':
        return lift(n, list(zip(op[1], op[2])), idx), []
    if k == 'eq':
        return [], lift(n, list(zip(op[1], op[2])), idx)
    if k == 'lbf':
        return lower(n, [op[1]], idx), []
    if k == 'ubf':
        return upper(n, [op[1]], idx), []
    if k == 'symineq':
        return sym_rows(n), []
    if k == 'symeq':
        return [], sym_rows(n)[:1]
    if k == 'ctor':
        return list(zip(op[1], op[2])), list(zip(op[3], op[4]))
    if k == 'fsym':
        return sym_rows(n), ([(tuple([1] * n), 2)] if op[2] else [])
    raise ValueError(k)


def apply_start(op, n):
    from pympc.geometry.polyhedron import Polyhedron
    k = op[0]
    ar = lambda v: np.array(v, dtype=float)
    if k == 'ctor':
        A, b = ar(op[1]).reshape(len(op[2]), n), ar(op[2])
        if op[4]:
            return Polyhedron(A, b, ar(op[3]).reshape(len(op[4]), n), ar(op[4]))
        return Polyhedron(A, b)
    if k == 'fsym':
        import sympy as sp
        x, e = sym_exprs(n)
        if op[2]:
            return Polyhedron.from_symbolic(x, e, sp.Matrix([sum(x) - 2]))
        return Polyhedron.from_symbolic(x, e)
    kw = {} if op[-1] is None else {'indices': op[-1], 'n': n}
    if k == 'flb':
        return Polyhedron.from_lower_bound(ar(op[1]), **kw)
    if k == 'fub':
        return Polyhedron.from_upper_bound(ar(op[1]), **kw)
    return Polyhedron.from_bounds(ar(op[1]), ar(op[2]), **kw)


def apply(p, op, n):
    k = op[0]
    ar = lambda v: np.array(v, dtype=float)
    args = () if op[-1] is None else (op[-1],)
    if k == 'lb':
        p.add_lower_bound(ar(op[1]), *args)
    elif k == 'ub':
        p.add_upper_bound(ar(op[1]), *args)
    elif k == 'bounds':
        p.add_bounds(ar(op[1]), ar(op[2]), *args)
    elif k == 'ineq':
        p.add_inequality(ar(op[1]), ar(op[2]), *args)
    elif k == 'eq':
        p.add_equality(ar(op[1]), ar(op[2]), *args)
    elif k == 'lbf':
        p.add_lower_bound(op[1], op[2])
    elif k == 'ubf':
        p.add_upper_bound(op[1], op[2])
    elif k == 'symineq':
        x, e = sym_exprs(n)
        p.add_symbolic_inequality(x, e)
    elif k == 'symeq':
        x, e = sym_exprs(n)
        p.add_symbolic_equality(x, e[:1, :])


def points(n):
    vals = {1: (-3., -1., -.5, 0., .5, .75, 1., 3.), 2: (-3., -2., -1., 0., .5, 1.), 3: (-2., -1., .5, 3.), 4: (-2., .5, 1.)}[n]
    return [list(t) for t in itertools.product(vals, repeat=n)]


def member(ineqs, eqs, x, tol):
    """True / False / None (within roundoff of the tolerance)."""
    res = True
    for a, b in ineqs:
        s = dot(a, x) - b
        if s > tol * 1.001 + 1e-12:
            return False
        if s > tol * .999 - 1e-12 and tol > 0:
            res = None
    for c, d in eqs:
        s = abs(dot(c, x) - d)
        if s > tol * 1.001 + 1e-12:
            return False
        if s > tol * .999 - 1e-12 and tol > 0:
            res = None
    return res


def judge_contains(p, ineqs, eqs, pts, ctx, tol=None):
    fi = [([float(t) for t in a], float(b)) for a, b in ineqs]
    fe = [([float(t) for t in c], float(d)) for c, d in eqs]
    for x in pts:
        m = member(fi, fe, x, 1.e-7 if tol is None else tol)
        if m is None:
            continue
        r = p.contains(np.array(x)) if tol is None else p.contains(np.array(x), tol=tol)
        ctx.step()
        ctx.outcome('in' if m else 'out')
        need(bool(r) == m, 'contains(%r%s) is %r, expected %r for ineqs %r eqs %r', x, '' if tol is None else ', tol=%g' % tol, r, m, ineqs, eqs)


class Build(Layer):
    def __init__(self, n, depth_q, depth_t):
        self.n, self.dq, self.dt = n, depth_q, depth_t
        self.name = 'build-%dd' % n
        self.bounds = 'dimension %d: %d constructors x every sequence of up to %d (thorough %d) of %d add_* calls' % (
            n, len(starts(n)), depth_q, depth_t, len(letters(n)))

    def shards(self, tier):
        return [[tier, i] for i in range(len(starts(self.n)))]

    def explore(self, shard, ctx):
        tier, i = shard
        ls = letters(self.n)
        d = self.dq if tier == 'quick' else self.dt
        for k in range(d + 1):
            for seq in itertools.product(range(len(ls)), repeat=k):
                ctx.state()
                ctx.case(self, [i] + list(seq))
                if len(ctx.violations) >= 5:
                    return

    def check(self, case, ctx):
        n = self.n
        ls = letters(n)
        op = starts(n)[case[0]]
        ineqs, eqs = sem(op, n)
        p = apply_start(op, n)
        for k in case[1:]:
            i2, e2 = sem(ls[k], n)
            ineqs, eqs = ineqs + i2, eqs + e2
            apply(p, ls[k], n)
            ctx.step()
        poly.same_set(p, ineqs, eqs, what='constructed polyhedron')
        pts = points(n)
        if len(case) > 2:
            pts = pts[::3]
        judge_contains(p, ineqs, eqs, pts, ctx)


def gen_member(tier):
    """Membership near the boundary and with several equalities, dimension 1..5, tolerances."""
    eps = [2. ** -k for k in ((26, 22, 20, 14, 8) if tier == 'quick' else (30, 27, 26, 25, 22, 21, 20, 17, 14, 11, 8, 5, 3))]
    for n in (1, 2, 3, 4, 5):
        for neq in range(0, min(n, 4) + 1):
            for nin in (0, 1, 2, 3, 4):
                for e in eps:
                    for tol in (None, 0., 1.e-7, 1.e-3, .25):
                        yield [n, neq, nin, e, tol]


def check_member(case, ctx):
    n, neq, nin, e, tol = case
    # rows with coefficient +-1 / 2 on overlapping coordinates, all tight at the integer point x0
    x0 = [float((-1) ** i * (i + 1)) for i in range(n)]
    allrows = [tuple([1 if k == i else 0 for k in range(n)]) for i in range(n)] + [tuple([1] * n), tuple([(-1) ** k * 2 for k in range(n)])]
    eqs = [(allrows[i], dot(allrows[i], x0)) for i in range(neq)]
    rr = allrows[::-1] + [tuple(-t for t in r) for r in allrows]
    ineqs = [(rr[i], dot(rr[i], x0)) for i in range(nin)]
    p = poly.real(ineqs, eqs, n)
    pts = [x0]
    for s in itertools.product((-1, 0, 1), repeat=n):
        pts.append([t + e * k for t, k in zip(x0, s)])
    ctx.state(len(pts))
    judge_contains(p, ineqs, eqs, pts, ctx, tol)


def gen_int(tier):
    """Integer / Fortran-ordered / strided arrays as data and as points."""
    for n in (1, 2, 3):
        for dt in ('int', 'F', 'strided', 'float32'):
            for neq in (0, 1, 2):
                yield [n, dt, neq]


def check_int(case, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n, dt, neq = case
    rows = [tuple([1] * n), tuple([-1] + [0] * (n - 1)), tuple([(-1) ** k * (k + 1) for k in range(n)])]
    ineqs = [(r, k + 1) for k, r in enumerate(rows)]
    eqs = [(tuple([2] + [1] * (n - 1)), 1), (tuple([4] + [2] * (n - 1)), 2)][:neq]

    def conv(M):
        M = np.array(M)
        if dt == 'int':
            return M.astype(int)
        if dt == 'F':
            return np.asfortranarray(M.astype(float))
        if dt == 'float32':
            return M.astype(np.float32)
        big = np.zeros(tuple(2 * k for k in M.shape))
        sl = tuple(slice(None, None, 2) for _ in M.shape)
        big[sl] = M
        return big[sl]
    A, b = conv([list(a) for a, _ in ineqs]), conv([t for _, t in ineqs])
    p = Polyhedron(A, b, conv([list(c) for c, _ in eqs]), conv([t for _, t in eqs])) if eqs else Polyhedron(A, b)
    p.add_lower_bound(np.array([-2] * n, dtype=int if dt == 'int' else float))
    i2 = ineqs + lower(n, [-2] * n, range(n))
    poly.same_set(p, i2, eqs)
    judge_contains(p, i2, eqs, points(n), ctx)
    ctx.state()
    # fractional additions to whatever is there
    half = [.5 + .25 * k for k in range(n)]
    for how in range(6):
        p = Polyhedron(A, b, conv([list(c) for c, _ in eqs]), conv([t for _, t in eqs])) if eqs else Polyhedron(A, b)
        i2, e2 = list(ineqs), list(eqs)
        if how == 0:
            p.add_upper_bound(np.array(half))
            i2 += upper(n, half, range(n))
        elif how == 1:
            p.add_lower_bound(np.array([-t for t in half]))
            i2 += lower(n, [-t for t in half], range(n))
        elif how == 2:
            p.add_bounds(np.array([-t for t in half]), np.array(half))
            i2 += lower(n, [-t for t in half], range(n)) + upper(n, half, range(n))
        elif how == 3:
            p.add_inequality(np.array([half]), np.array([.75]))
            i2.append((tuple(half), .75))
        elif how == 4:
            p.add_equality(np.array([half]), np.array([.375]))
            e2.append((tuple(half), .375))
        else:
            p.add_upper_bound(np.array([.5]), [n - 1])
            p.add_lower_bound(np.array([1], dtype=int) * -3, [0])
            i2 += upper(n, [.5], [n - 1]) + lower(n, [-3], [0])
        ctx.state()
        ctx.step()
        poly.same_set(p, i2, e2, what='polyhedron after a fractional addition')
        judge_contains(p, i2, e2, points(n) + [[t - .125 for t in half], [t + .125 for t in half], half], ctx)


def gen_sym(tier):
    """Symbolic affine expressions: all sign patterns (unused variables included), every sign of the constant, expanded or not,
    one or several rows, as inequalities / equalities, in the constructor or added."""
    for n in (1, 2, 3, 4):
        pats = list(itertools.product((-1, 0, 2) if n < 4 else (0, 1), repeat=n))
        for k, a in enumerate(pats):
            if not any(a):
                continue
            for c in (-2, 0, 1, Fraction(3, 2)):
                for form in range(4):
                    if n > 2 and (k + form) % 3 and tier == 'quick':
                        continue
                    yield [n, [[list(a), str(c)]], form]
                    b = pats[(5 * k + 2) % len(pats)]
                    if form == 0:
                        yield [n, [[list(a), str(c)], [list(b), '-1'], [list(a[::-1]), '1/2']], form]
                    # rows in which the variables cancel: always or never satisfied
                    if n < 3 and form < 3:
                        for z in ('1', '-1', '0', '-1/2'):
                            yield [n, [[list(a), str(c)], [[0] * n, z]], form]
                            yield [n, [[[0] * n, z], [list(a), str(c)], [list(a), '1']], form]


def check_sym(case, ctx):
    import sympy as sp
    from pympc.geometry.polyhedron import Polyhedron
    n, rows, form = case
    x = sp.Matrix(sp.symbols('x0:%d' % n))
    if form == 3:
        # symbols in another order than the alphabetical one, and unrelated names
        x = sp.Matrix(sp.symbols(['z', 'a', 'm', 'b'][:n]))
    ctx.state()
    exprs, ref = [], []
    for a, c in rows:
        c = Fraction(c)
        cs = sp.Rational(c.numerator, c.denominator)
        if form == 1:
            e = 2 * (sum((sp.Rational(t, 2) * v for t, v in zip(a, x)), sp.Integer(0)) + cs / 2)
        elif form == 2:
            e = sum((float(t) * v for t, v in zip(a, x)), sp.Integer(0)) + 3 * x[0] + float(c) - 3 * (x[0] - 1) - 3
        else:
            e = sum((t * v for t, v in zip(a, x)), sp.Integer(0)) + cs
        exprs.append(e)
        ref.append((tuple(a), -c))
    M = sp.Matrix(exprs)
    bx = [(unit(n, i, s), 4) for i in range(n) for s in (1, -1)]
    mk = lambda: poly.real(bx, [], n)
    p = Polyhedron.from_symbolic(x, M)
    ctx.step()
    poly.same_set(p, ref, [], what='from_symbolic')
    p = mk()
    p.add_symbolic_inequality(x, M)
    ctx.step()
    poly.same_set(p, bx + ref, [], what='add_symbolic_inequality')
    judge_contains(p, bx + ref, [], points(n), ctx)
    p = mk()
    p.add_symbolic_equality(x, M)
    ctx.step()
    poly.same_set(p, bx, ref, what='add_symbolic_equality')
    judge_contains(p, bx, ref, points(n), ctx)
    if len(rows) > 1:
        p = Polyhedron.from_symbolic(x, M[1:, :], M[:1, :])
    else:
        p = Polyhedron.from_symbolic(x, sp.Matrix([v - 4 for v in x] + [-v - 4 for v in x]), M)
    ctx.step()
    i2 = ref[1:] if len(rows) > 1 else bx
    poly.same_set(p, i2, ref[:1] if len(rows) > 1 else ref, what='from_symbolic with equalities')


def gen_many(tier):
    """Long histories: up to 40 single additions, each state compared."""
    for n in (1, 2, 3, 4, 6):
        for v in range(6):
            yield [n, v, 40 if n < 4 else 12]


def check_many(case, ctx):
    n, v, K = case
    bx = [(unit(n, i, s), 5.) for i in range(n) for s in (1, -1)]
    p = poly.real(bx, [], n)
    ineqs, eqs = list(bx), []
    pts = [[((3 * i + 5 * k + k * k) % 13 - 6) / 2. for i in range(n)] for k in range(24)]
    for k in range(K):
        ctx.state()
        a = [((7 * k + 3 * i + v * i * i + k * i) % 5) - 2 for i in range(n)]
        b = 3. + ((k * (v + 2)) % 7) / 4.
        kind = (k * (v + 1) + v) % 6
        idx = [i for i in range(n) if (k + i + v) % 2] or [n - 1]
        if kind in (0, 3):
            op = ['ineq', [a], [b], None]
        elif kind == 1:
            op = ['ub', [b + .25 * i for i in range(len(idx))], idx]
        elif kind == 2:
            op = ['lb', [-b - .25 * i for i in range(len(idx))], idx[::-1]]
        elif kind == 4 and len(eqs) < n - 1 and k > 3:
            op = ['eq', [[1 if i == len(eqs) else (1 if i == n - 1 else 0) for i in range(n)]], [.5], None]
        else:
            op = ['bounds', [-b] * n, [b] * n, None]
        i2, e2 = sem(op, n)
        ineqs, eqs = ineqs + i2, eqs + e2
        apply(p, op, n)
        ctx.step()
        judge_contains(p, ineqs, eqs, pts, ctx)
        if k in (3, 11, K - 1):
            poly.same_set(p, ineqs, eqs, what='polyhedron after %d additions' % (k + 1))


LAYERS = [Cases('symbolic', gen_sym, check_sym, 'all sign patterns of 1..4 symbols (unused ones included) x constants of every sign x expanded / factored / redundant / unordered symbols; one and three rows; inequalities, equalities, constructors'),
          Cases('many', gen_many, check_many, 'histories of up to 40 additions in dimension 1..6, membership in every state'),
          Build(1, 2, 3), Build(2, 2, 2), Build(3, 1, 2), Build(4, 1, 1),
          Cases('member', gen_member, check_member, 'dimension 1..5 x 0..4 equalities x 0..4 inequalities, all offsets {-e,0,e}^n around a point where all rows are tight, e above/below the tolerance, default and explicit tolerances'),
          Cases('array-kinds', gen_int, check_int, 'integer, Fortran-ordered, strided, float32 data')]


# -- bounds of every size -----------------------------------------------------------------------------------------------------------

def gen_sizes(tier):
    ks = (-13, -7, 0, 5, 11, 16, 22) if tier == 'quick' else tuple(range(-13, 25, 2))
    for how in ('from_bounds', 'bounds', 'lb-ub', 'symbolic', 'rows'):
        for n in (1, 2, 3):
            for v in itertools.product(ks, repeat=2):
                yield [how, n, list(v), 0]
                yield [how, n, list(v), 1]


def check_sizes(case, ctx):
    """Component i is bounded by -2^l and 2^h (possibly shifted): very wide, very narrow and lopsided intervals are all kept."""
    from pympc.geometry.polyhedron import Polyhedron
    how, n, (k, l), shift = case
    ctx.state()
    lo = [-2. ** k if i % 2 == 0 else -2. ** l for i in range(n)]
    hi = [2. ** l if i % 3 == 0 else 2. ** k for i in range(n)]
    if shift:
        lo, hi = [hi[i] * .5 if i == 0 else lo[i] for i in range(n)], hi
    flo, fhi = np.array(lo), np.array(hi)
    eye = np.eye(n)
    if how == 'from_bounds':
        p = Polyhedron.from_bounds(flo, fhi)
    else:
        p = poly.real([(unit(n, 0), 2. ** 30)], [], n)
        if how == 'bounds':
            p.add_bounds(flo, fhi)
        elif how == 'lb-ub':
            for i in range(n):
                p.add_lower_bound(flo[i:i + 1], [i])
            p.add_upper_bound(fhi)
        elif how == 'rows':
            p.add_inequality(np.vstack((eye, -eye)), np.concatenate((fhi, -flo)))
        else:
            import sympy as sp
            x = sp.Matrix([sp.Symbol('x%d' % i, real=True) for i in range(n)])
            p.add_symbolic_inequality(x, sp.Matrix([x[i] - sp.Float(fhi[i]) for i in range(n)] + [sp.Float(flo[i]) - x[i] for i in range(n)]))
    ctx.step()
    ctx.outcome(how)
    mid = .5 * (flo + fhi)
    for i in range(n):
        for end, out in ((flo[i], -1), (fhi[i], 1)):
            w = max(2. ** -5 * (fhi[i] - flo[i]), 2. ** -20)
            for s in (-1, 1):
                q = mid.copy()
                q[i] = end + out * s * w
                ctx.step()
                need(bool(p.contains(q)) == (s < 0), '%s with bounds %r, %r: the point %r is %s', how, lo, hi, q.tolist(), 'inside' if s > 0 else 'outside')
    far = mid + (fhi - flo) * 16.
    need(not p.contains(far) and not p.contains(-far) and p.contains(mid), '%s: far point inside or midpoint outside (bounds %r, %r)', how, lo, hi)
    ctx.step(3)


LAYERS.append(Cases('sizes', gen_sizes, check_sizes, 'bounds of all pairs of sizes 2^-13..2^22 in dimension 1..3, added in five ways'))


# -- many symbols ------------------------------------------------------------------------------------------------------------

def wide_names(n):
    return [['x%d' % i for i in range(n)], ['x%d' % (n - 1 - i) for i in range(n)], ['x%d' % (9 + (i * 5) % n if n % 5 else 9 + i) for i in range(n)], [chr(ord('z') - i) for i in range(n)], [('a%d' if i % 2 else 'B%d') % i for i in range(n)]]


def gen_wide(tier):
    for n in (5, 8, 12) if tier == 'quick' else range(5, 17):
        for k in range(5):
            for how in ('ctor', 'ctor-eq', 'add', 'add-eq'):
                yield [n, k, how]


def check_wide(case, ctx):
    import sympy as sp
    from pympc.geometry.polyhedron import Polyhedron
    n, k, how = case
    x = sp.Matrix([sp.Symbol(t) for t in wide_names(n)[k]])
    rows = [([int(i == j) for i in range(n)], 1 + j) for j in range(n)] + [([-int(i == j) for i in range(n)], 1) for j in range(n)] + [([i + 1 for i in range(n)], 5)]
    eq = [int(i == n - 2) - 2 * int(i == 2) for i in range(n)]
    M = sp.Matrix([sum((t * v for t, v in zip(a, x)), sp.Integer(0)) - b for a, b in rows])
    E = sp.Matrix([sum((t * v for t, v in zip(eq, x)), sp.Integer(0)) - 1])
    ctx.state()
    if how == 'ctor':
        p, eqs = Polyhedron.from_symbolic(x, M), []
    elif how == 'ctor-eq':
        p, eqs = Polyhedron.from_symbolic(x, M, E), [(eq, 1)]
    else:
        p, eqs = poly.real([([0] * n, 1)], [], n), []
        p.add_symbolic_inequality(x, M)
        if how == 'add-eq':
            p.add_symbolic_equality(x, E)
            eqs = [(eq, 1)]
    ctx.step()
    zero = [0.] * n
    if eqs:
        zero[n - 2] = 1.
    at = lambda i, t: [t if j == i else (zero[j] + (2 * t if eqs and i == 2 and j == n - 2 else 0.)) for j in range(n)]
    pts = [at(i, t) for i in range(n) for t in (-1.25, -.75, .25, .75, 1.25, 5. / (i + 1) - .125, 5. / (i + 1) + .125, i + .75, i + 1.25)]
    judge_contains(p, rows, eqs, pts, ctx)
    ctx.outcome(how)


LAYERS.append(Cases('many-symbols', gen_wide, check_wide, '5..12 (thorough 16) symbols whose names sort differently from their order; constructor and additions, with and without an equality; every axis probed on both sides of every row'))
