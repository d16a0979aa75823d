"""
Histories of solver calls: pools of look-alike programs (orbits of a program under relabelling and sign changes of the variables,
reordering of the rows, and replacement of one field by another).  They agree in traces, determinants, norms, sums, shapes or in all
fields but one, so anything a solver would remember under an incomplete key is visible when one is solved after the other, with new
arrays or with the same arrays overwritten in place.
"""
import itertools

BASES2 = [
    # H, f, inequalities, equalities
    [[[4, 1], [1, 2]], [3, -1], [([1, 2], 2), ([-1, 0], 3), ([0, -1], 1), ([2, -1], 4)], []],
    [[[2, 0], [0, 8]], [-5, 2], [([1, 0], 1), ([-1, 0], 2), ([0, 1], 3), ([0, -1], .5)], []],
    [[[4, 1], [1, 2]], [1, -2], [([1, 0], 1), ([-1, 0], 2), ([0, 1], 3), ([0, -1], 2)], [([1, 2], 1)]],
    [[[3, -1], [-1, 1]], [1, 1], [([1, 1], -1), ([-1, -2], 4), ([-1, 1], 2)], []],
    [[[3, -1], [-1, 1]], [1, 0], [([1, 1], 1), ([-1, -2], -8), ([-1, 0], 1)], []],     # infeasible or not, by the order of the signs
]
BASES3 = [
    [[[4, 1, 0], [1, 2, 0], [0, 0, 1]], [3, -1, 2], [([1, 0, 0], 1), ([-1, 0, 0], 2), ([0, 1, 0], 3), ([0, -1, 0], .5), ([0, 0, 1], 1), ([0, 0, -1], 2), ([1, 1, 1], 0)], []],
    [[[2, 0, 1], [0, 1, 0], [1, 0, 4]], [-6, 1, 2], [([1, 0, 0], 1), ([-1, 0, 0], 2), ([0, 1, 0], 3), ([0, -1, 0], .5), ([0, 0, 1], 1), ([0, 0, -1], 2)], [([1, 2, -1], 1)]],
]


def relabel(p, perm, sign):
    """Replaces variable k by sign[k] * variable perm[k]."""
    H, f, I, E = p
    n = len(f)
    v = lambda a: [sign[k] * a[perm[k]] for k in range(n)]
    return [[[sign[i] * sign[j] * H[perm[i]][perm[j]] for j in range(n)] for i in range(n)], v(f), [(v(a), b) for a, b in I], [(v(a), b) for a, b in E]]


def pool(base, deep=False):
    """Programs of the same shape as base."""
    n = len(base[1])
    perms = list(itertools.permutations(range(n)))
    signs = list(itertools.product((1, -1), repeat=n))
    if n > 2 and not deep:
        perms, signs = perms[:1] + perms[2:5], [signs[0], signs[3], signs[5]]
    out = []
    for perm in perms:
        for sign in signs:
            q = relabel(base, perm, sign)
            out.append(q)
            if sign == signs[0] or sign == signs[-1]:
                # one field of the relabelled program in the base
                for k in range(3 if not base[3] else 4):
                    m = [list(t) for t in base]
                    m[k] = q[k]
                    out.append(m)
    H, f, I, E = base
    out.append([H, f, I[::-1], E])
    out.append([H, f, I[1:] + I[:1], E])
    out.append([H, f, [(a, I[len(I) - 1 - k][1]) for k, (a, _) in enumerate(I)], E])     # same right-hand sides, elsewhere
    out.append([H, f, [(a, b - .25) for a, b in I], E])
    out.append([H, f, [(a, b + 1) for a, b in I], E])
    out.append([H, [2 * t for t in f], I, E])
    out.append([[[2 * t for t in r] for r in H], f, I, E])
    if E:
        out.append([H, f, I, [(a, -b) for a, b in E]])
        out.append([H, f, I, [([-t for t in a], b) for a, b in E]])
        out.append([H, f, [(E[0][0], I[0][1])] + I[1:], [(I[0][0], E[0][1])] + E[1:]])    # an inequality and the equality exchanged
    seen, res = set(), []
    for p in out:
        if str(p) not in seen:
            seen.add(str(p))
            res.append(p)
    return res


def gen(tier):
    """[base, i, j, in place]: solve i, then j, then i again."""
    for k, base in enumerate(BASES2 + BASES3):
        m = len(pool(base, tier == 'thorough'))
        for i in range(m):
            for j in range(m):
                if i != j and (m < 30 or tier == 'thorough' or (i * 7 + j) % 3 == 0 or i == 0 or j == 0):
                    yield [k, i, j, (i + j) % 2, tier]


_POOLS = {}


def programs(case):
    k, i, j, inplace, tier = case
    if (k, tier) not in _POOLS:
        _POOLS[k, tier] = pool((BASES2 + BASES3)[k], tier == 'thorough')
    P = _POOLS[k, tier]
    return [P[i], P[j], P[i]], bool(inplace)


def arrays(p, with_H, old=None):
    """Arguments of the program; written into the old arrays if given."""
    import numpy as np
    H, f, I, E = p
    n = len(f)
    new = ([H] if with_H else []) + [f, [a for a, _ in I], [b for _, b in I]]
    if E:
        new += [[a for a, _ in E], [b for _, b in E]]
    new = [np.array(t, dtype=float) for t in new]
    if old is None:
        return new
    for o, t in zip(old, new):
        o[:] = t
    return old


# -- arrays of mixed types ---------------------------------------------------------------------------------------------------

def gen_dtypes(tier):
    """[base, mask]: bit k set: field k holds fractions (floats), otherwise integers (an integer array)."""
    for k, base in enumerate(BASES2 + BASES3):
        for mask in range(2 ** (6 if base[3] else 4)):
            for t in range(4 if tier == 'thorough' else 2):
                yield [k, mask, t]


def dtype_program(case):
    """(program, dtypes): fields H, f, A, b, C, d, integer or shifted by fractions."""
    k, mask, t = case
    H, f, I, E = (BASES2 + BASES3)[k]
    n = len(f)
    fr = [.25, .375, .4375, .5][t]
    on = [bool(mask >> j & 1) for j in range(6)]
    up = lambda v: int(v) if v == int(v) else int(v) + 1
    H = [[H[i][j] + (fr if on[0] and i == j else 0) for j in range(n)] for i in range(n)]
    f = [v + (fr * (-1) ** i if on[1] else 0) for i, v in enumerate(f)]
    A = [[v + (fr if on[2] and v and (i + j) % 2 else 0) for j, v in enumerate(a)] for i, (a, _) in enumerate(I)]
    b = [up(v) + (fr if on[3] else 0) for _, v in I]
    C = [[v + (fr if on[4] and j == 0 else 0) for j, v in enumerate(a)] for a, _ in E]
    d = [up(v) + (fr if on[5] else 0) for _, v in E]
    return [H, f, list(zip(A, b)), list(zip(C, d))], [float if o else int for o in on]


def dtype_arrays(case, with_H):
    import numpy as np
    (H, f, I, E), ty = dtype_program(case)
    out = ([np.array(H, dtype=ty[0])] if with_H else []) + [np.array(f, dtype=ty[1]), np.array([a for a, _ in I], dtype=ty[2]), np.array([b for _, b in I], dtype=ty[3])]
    if E:
        out += [np.array([a for a, _ in E], dtype=ty[4]), np.array([b for _, b in E], dtype=ty[5])]
    return (H, f, I, E), out


DTYPES = 'every assignment of integer (integer array) or fractional (float array) data to the fields of 7 programs'


# -- multipliers of very different size --------------------------------------------------------------------------------------

def gen_spread_qp(tier):
    return gen_spread(tier, True)


def gen_spread(tier, qp=False):
    """[n, exponents of the gradient, row scales, equality?]: boxes (and one cut) whose multipliers differ by orders of magnitude."""
    ks = ((-7, -1, 4, 12) if tier == 'thorough' else (-6, 1, 11)) if not qp else (-5, 0, 5)
    for n in (1, 2, 3):
        for ex in itertools.product(ks, repeat=n):
            for rows in ((0,), (5, -3)) if n > 1 else ((0,), (5,), (-5,)):
                for eq in (0, 1) if n > 1 else (0,):
                    for cut in (0, 1):
                        yield [n, list(ex), list(rows), eq, cut]


def spread_program(case):
    n, ex, rows, eq, cut = case
    f = [(-1.) ** (i + 1) * 2. ** k for i, k in enumerate(ex)]
    I = []
    for i in range(n):
        e = [float(i == j) for j in range(n)]
        m = 2. ** rows[i % len(rows)]
        I.append(([m * t for t in e], m * (1. + .5 * i)))
        I.append(([-t for t in e], 1.))
    if cut:
        I.append(([1.] * n, 1.25))
    E = [([1.] + [-1.] * (n - 1), .25)] if eq else []
    H = [[float(i == j) * (i + 1) for j in range(n)] for i in range(n)]
    return H, f, I, E


def spread_arrays(case, with_H):
    p = spread_program(case)
    return p, arrays(list(p), with_H)


SPREAD = 'boxes of dimension 1..3 with gradients of every combination of sizes 2^-6..2^11 (quadratic programs 2^-5..2^5; multipliers of very different size), row scales 2^-3..2^5, with and without a cut and an equality'


def gen_rows(tier):
    """[n, exponents of the gradient, row scales, equality?, cut?]: gradients of ordinary size, constraints with very large or small gradients."""
    scales = ((9,), (12,), (12, 0), (0, 12), (-9,), (-9, 3)) if tier == 'quick' else ((9,), (12,), (12, 0), (0, 12), (10, 5, 0), (-9,), (-9, 3), (-10, 0), (6, -6))
    for n in (1, 2, 3):
        for ex in itertools.product((-2, 0, 3), repeat=n):
            for rows in scales:
                if len(rows) > n:
                    continue
                for eq in (0, 1) if n > 1 else (0,):
                    for cut in (0, 1):
                        yield [n, list(ex), list(rows), eq, cut]


ROWS = 'the same boxes with gradients 2^-2..2^3 and constraint rows scaled by 2^-9..2^12'
