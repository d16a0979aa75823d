"""Faces of polytopes: the same body with some of its (normalised, hence irrational) inequalities turned into equalities."""
import itertools
from .ref import Poly, rank
from . import poly


def gen(tier):
    from .checks.c13 import bodies
    seen = set()
    for n, ineqs in bodies('quick' if tier == 'quick' else 'thorough'):
        if n < 2 or n > 4:
            continue
        key = repr((n, ineqs))
        if key in seen:
            continue
        seen.add(key)
        for k in (1, 2):
            if k >= n or (tier == 'quick' and k == 2 and n == 4):
                continue
            for idx in itertools.combinations(range(len(ineqs)), k):
                eqs = [ineqs[i] for i in idx]
                if rank([list(c) for c, _ in eqs]) < k:
                    continue
                for norm in (True, False):
                    yield [n, ineqs, list(idx), norm]


def build(case):
    """(real polyhedron, inequalities, equalities, exact polyhedron)"""
    n, ineqs, idx, norm = case
    p = poly.real(ineqs, [], n)
    if norm:
        p.normalize()
    A, b = p.A[idx], p.b[idx]
    p.add_equality(A, b)
    eqs = [tuple(ineqs[i]) for i in idx]
    return p, [tuple(r) for r in ineqs], eqs, Poly.build(n, ineqs, eqs)


def relevant(case, r):
    """Nonempty faces of the expected dimension only: the others are decided by roundoff."""
    return not r.empty and r.dim() == case[0] - len(case[2])


BOUNDS = 'bodies of C13 in dimension 2..4: every facet, and every pair of facets, turned into equalities, on the original and on the normalised (irrational) description'
