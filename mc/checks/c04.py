"""C04: global optimum of mixed-integer quadratic programs, against enumeration of all binary assignments."""
import itertools
import numpy as np
from ..core import Cases, need
from ..ref import Poly, dot, matvec
from .. import pairs, qp
from .c01 import arr
from .c02 import quad

TOL = 1.e-4     # relative optimality gap granted to the branch and bound solver


def gen(tier):
    deep = tier == 'thorough'
    # (nc, nb): every list of up to two coupling rows on top of a box for the continuous part
    for nc, nb in [(0, 1), (0, 2), (0, 3), (0, 4), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (1, 5)]:
        n = nc + nb
        base = []
        for i in range(nc):
            e = [0] * n
            e[i] = 1
            base += [(e, 3), ([-t for t in e], 2)]
        rows = []
        one = [0] * nc + [1] * nb
        rows.append((one, 1))                                         # at most one
        rows.append(([-t for t in one], -1))                          # at least one
        rows.append(([0] * nc + [-1] * nb, -nb))                      # all of them
        rows.append(([0] * (n - 1) + [2], 1))                         # last one off
        if nc:
            rows.append(([1] + [0] * (nc - 1) + [-4] * nb, 0))        # x0 <= 4 sum(d)
            rows.append(([-1] * nc + [0] * (nb - 1) + [3], -1))       # sum x >= 1 + 3 d_last
            rows.append(([1] * nc + [-5] + [0] * (nb - 1), -2))
            rows.append(([0] * (nc - 1) + [-2] + [1] * nb, 1))
        else:
            rows.append(([1] + [0] * (nb - 1), 0))
            rows.append(([-1] + [1] * (nb - 1), 0))
        eqs = [[], [([1] * nc + [1] + [0] * (nb - 1), 1)]]
        if nc:
            eqs.append([([2] + [0] * (nc - 1) + [-1] * nb, 0)])
        if n >= 3:
            eqs.append([([0] * nc + [1] * nb, 1), ([1] + [0] * (n - 2) + [1], 1)])
        I = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        Hs = [I, [[(4 if i == j else 1) for j in range(n)] for i in range(n)],
              [[(2 + i if i == j else (-1 if abs(i - j) == 1 else 0)) for j in range(n)] for i in range(n)]]
        fs = [[0] * n, [1 if i % 2 else -3 for i in range(n)], [-2] * n, [i - 2.5 for i in range(n)]]
        combos = list(itertools.chain.from_iterable(itertools.combinations(range(len(rows)), k) for k in range(0, 4 if deep else 3)))
        for ci, combo in enumerate(combos):
            ineqs = base + [rows[k] for k in combo]
            if not ineqs:
                continue
            for ei, eq in enumerate(eqs):
                for hi, H in enumerate(Hs):
                    for fi, f in enumerate(fs):
                        yield [nc, H, f, ineqs, eq]
        # the binaries enter the cost only linearly, or only through products with the continuous variables' own terms
        Z = [[H0 if i < nc and j < nc else 0 for j, H0 in enumerate(r)] for i, r in enumerate(Hs[1])]
        Y = [[(0 if min(i, j) >= nc else (0 if max(i, j) >= nc else v)) for j, v in enumerate(r)] for i, r in enumerate(Hs[2])]
        W = [[(v if max(i, j) < n - 1 else 0) for j, v in enumerate(r)] for i, r in enumerate(Hs[1])]
        for ci, combo in enumerate(combos):
            ineqs = base + [rows[k] for k in combo]
            if not ineqs:
                continue
            for ei, eq in enumerate(eqs):
                for hi, H in enumerate((Z, Y, W)):
                    for fi, f in enumerate(fs[1:] + [[0] * nc + [3, -2, 5, -1, -4][:nb]]):
                        if deep or (ci + ei + hi + fi) % 2:
                            yield [nc, H, f, ineqs, eq]


def gen_wide(tier):
    """More binaries: chains of choices, knapsacks, assignments (up to 8 binaries, all assignments enumerated)."""
    for nb in (6, 7, 8) if tier == 'thorough' else (6, 7):
        for nc in (0, 1):
            n = nc + nb
            w = [3, 5, 2, 7, 4, 6, 1, 8][:nb]
            B = [0] * nc
            base = [([1] + [0] * nb, 4), ([-1] + [0] * nb, 3)] if nc else []
            pools = [
                [(B + w, 10)],
                [(B + [-t for t in w], -11), (B + [1] * nb, 4)],
                [(B + [(1 if k in (i, i + 1) else 0) for k in range(nb)], 1) for i in range(nb - 1)],
                [(B + [(1 if k == i else (-1 if k == i + 1 else 0)) for k in range(nb)], 0) for i in range(nb - 1)],
            ]
            if nc:
                pools.append([([1] + [-t / 4. for t in w], -1), ([-1] + [1] * nb, 2)])
            for rows in pools:
                for eq in ([], [(B + [1] * nb, 3)], [(B + [1] * (nb // 2) + [-1] * (nb - nb // 2), 0)]):
                    for H in ([[(2 if i == j else 0) for j in range(n)] for i in range(n)], [[(nb if i == j else 1) for j in range(n)] for i in range(n)], [[(1 if i == j and i < nc else 0) for j in range(n)] for i in range(n)]):
                        for f in ([-2] * n, [((-1) ** k) * (k + .5) for k in range(n)], [2] * nc + [-t for t in w]):
                            yield [nc, H, f, base + rows, eq]


def gen_pairs(tier):
    for case in pairs.gen(tier):
        if tier == 'thorough' or case[1] == 0 or case[2] == 0 or (case[1] + 2 * case[2]) % 4 == 0:
            for nb in (1, 2) if case[1] == 0 else (1 + case[2] % 2,):
                yield [case, nb]


def check_pairs(case, ctx):
    """Look-alike programs solved one after the other (the last nb variables binary)."""
    progs, inplace = pairs.programs(case[0])
    args = None
    for H, f, I, E in progs:
        args = pairs.arrays([H, f, I, E], True, args if inplace else None)
        check([len(f) - case[1], H, f, I, E], ctx, args)


def check(case, ctx, arrays=None):
    from pympc.optimization.programs import mixed_integer_quadratic_program
    nc, H, f, ineqs, eqs = case
    n = len(f)
    best = None
    for delta in itertools.product((0, 1), repeat=n - nc):
        ctx.state()
        ctx.step()      # branch of the choice tree over the binaries
        # continuous problem with the binaries fixed
        Hc = [r[:nc] for r in H[:nc]]
        fc = [f[i] + sum(H[i][nc + k] * delta[k] for k in range(n - nc)) for i in range(nc)]
        off = .5 * sum(H[nc + i][nc + k] * delta[i] * delta[k] for i in range(n - nc) for k in range(n - nc)) + sum(f[nc + k] * delta[k] for k in range(n - nc))
        ic = [(a[:nc], b - dot(a[nc:], delta)) for a, b in ineqs]
        ec = [(c[:nc], d - dot(c[nc:], delta)) for c, d in eqs]
        if nc == 0:
            if all(b >= 0 for _, b in ic) and all(d == 0 for _, d in ec):
                v = off
            else:
                continue
        else:
            p = Poly.build(nc, ic, ec)
            if p.empty:
                continue
            v = qp.solve(Hc, fc, ic, ec, p)[1] + off
        if best is None or v < best:
            best = v
    A, b = arr(ineqs, n)
    args = [nc, np.array(H, dtype=float), np.array(f, dtype=float), A, b]
    if eqs:
        args += list(arr(eqs, n))
    if arrays is not None:
        args = [nc] + arrays
    sol = mixed_integer_quadratic_program(*args)
    ctx.step()
    ctx.outcome('infeasible' if best is None else 'optimal')
    if best is None:
        need(sol['min'] is None and sol['argmin'] is None, 'MIQP is infeasible but the solver returned %r', sol)
        return
    need(sol['min'] is not None and sol['argmin'] is not None, 'MIQP has optimum %g but the solver found none', best)
    x = np.asarray(sol['argmin'], dtype=float)
    need(x.shape == (n,), 'argmin has shape %s', x.shape)
    x = x.tolist()
    for t in x[nc:]:
        need(min(abs(t), abs(t - 1.)) <= 1.e-5, 'binary variable is %r in %r', t, x)
    for a, r in ineqs:
        need(dot(a, x) - r <= 1.e-5 * (1. + abs(r)), 'argmin %r violates %r x <= %r', x, a, r)
    for c, r in eqs:
        need(abs(dot(c, x) - r) <= 1.e-5 * (1. + abs(r)), 'argmin %r violates %r x == %r', x, c, r)
    need(abs(quad(H, f, x) - float(sol['min'])) <= 1.e-5 * (1. + abs(best)), 'min is %r but the cost of argmin is %r', sol['min'], quad(H, f, x))
    need(abs(float(sol['min']) - best) <= TOL * (1. + abs(best)), 'min is %r, best over all binary assignments is %r', sol['min'], best)


LAYERS = [Cases('miqp', gen, check, '12 shapes (0..3 continuous, 1..5 binaries) x every set of 0..2 (thorough 0..3) coupling rows x equality lists x Hessians (also without any quadratic term in the binaries) x gradients'),
          Cases('wide', gen_wide, check, '6..7 (thorough 8) binaries, 0..1 continuous variables: knapsacks, conflicts, chains x equalities x costs, every assignment enumerated'),
          Cases('pairs', gen_pairs, check_pairs, 'look-alike programs solved one after the other, new arrays or the same arrays overwritten')]


def gen_dtypes(tier):
    for case in pairs.gen_dtypes(tier):
        for nb in (1, 2) if case[2] == 0 else (1,):
            yield [case, nb]


def check_dtypes(case, ctx):
    (H, f, I, E), args = pairs.dtype_arrays(case[0], True)
    check([len(f) - case[1], H, f, I, E], ctx, args)


LAYERS.append(Cases('dtypes', gen_dtypes, check_dtypes, pairs.DTYPES))


def gen_continuous(tier):
    """Programs without any binary variable."""
    for case in pairs.gen_dtypes(tier):
        if case[1] in (0, 63, 15, 5):
            yield [case, 0]


LAYERS.append(Cases('continuous', gen_continuous, check_dtypes, 'no binary variable at all'))


# -- switches: continuous variables that may move only when a binary is on -----------------------------------------------------------

def gen_switch(tier):
    for m in (3, 6, 8, 10) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 8, 9, 10, 11):
        M = 2. ** m
        for price in (.5, 4., 16., 100., M, 8 * M):
            for target in (5., -3., 1.5):
                for k in (1, 2):
                    yield [m, price, target, k]


def check_switch(case, ctx):
    """min 1/2 |x - target|^2 + price * d, |x_i| <= M d_i; two variables share one binary or have their own."""
    m, price, target, k = case
    M = 2. ** m
    nc, nb = k, k
    n = nc + nb
    H = [[float(i == j and i < nc) for j in range(n)] for i in range(n)]
    f = [-target * (1. + .5 * i) for i in range(nc)] + [price * (1. + .25 * i) for i in range(nb)]
    ineqs = []
    for i in range(nc):
        for s in (1., -1.):
            a = [0.] * n
            a[i], a[nc + i] = s, -M
            ineqs.append((a, 0.))
    check([nc, H, f, ineqs, []], ctx)
    if k == 2:
        ineqs.append(([0.] * nc + [1.] * nb, 1.))
        check([nc, H, f, ineqs, []], ctx)
        check([nc, H, f, ineqs, [([0.] * nc + [1.] * nb, 1.)]], ctx)


LAYERS.append(Cases('switch', gen_switch, check_switch, 'one or two continuous variables switched on by binaries through constants 2^3..2^10 (thorough 2^11), prices below and above the gain'))


def gen_close(tier):
    """Assignments whose costs differ by a fraction of a percent."""
    for nb in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6):
        for e in (6, 8, 10):
            for cap in (1, 2, nb - 1):
                for v in range(4):
                    d = 2. ** -e
                    f = [-(4. + d * ((3 * i + v) % nb)) for i in range(nb)]
                    w = [1. + (v % 2) * .125 * ((2 * i + v) % 3) for i in range(nb)]
                    yield [0, [[0.] * nb for _ in range(nb)], f, [(w, cap + .25)], []]
                    yield [1, [[1.] + [0.] * nb] + [[0.] * (nb + 1) for _ in range(nb)], [-1.] + f, [([0.] + w, cap + .25), ([1.] + [0.] * nb, 3.), ([-1.] + [0.] * nb, 3.), ([1.] + [-.5] * nb, .5)], []]


LAYERS.append(Cases('close', gen_close, check, '3..5 (thorough 6) binaries, assignments whose costs differ by 2^-6..2^-10'))
