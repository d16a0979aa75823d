"""Polyhedra that come out of the operations of the library (projection, hull, intersection, product, copy, rewriting) instead of
a constructor: all chains of up to two operations, with questions asked in between.  The questions asked at the end are judged
against the description the object carries then (that this description is the right set is the business of C05, C09, C10, C12,
C13)."""
import copy
import itertools
import numpy as np
from . import poly
from .core import need

SRC2 = [
    [((1, 1), 4), ((-1, 0), 0), ((0, -1), 0)],
    [((1, 0), 3), ((-1, 0), 1), ((0, 1), 1), ((0, -1), 0)],
    [((2, 1), 6), ((-1, 2), 5), ((-1, 0), 1), ((0, -1), 1), ((1, -1), 3)],
]
SRC3 = [
    [((1, 1, 1), 4), ((-1, 0, 0), 0), ((0, -1, 0), 0), ((0, 0, -1), 0)],
    [((1, 1, 0), 4), ((-1, 0, 0), 0), ((0, -1, 0), 0), ((0, 0, 1), 1), ((0, 0, -1), 1)],
    [((1, 0, 2), 5), ((0, 1, 1), 3), ((-1, 0, 0), 1), ((0, -1, 0), 0), ((0, 0, -1), 1)],
]
CUTS = {1: ([1.], 1.25), 2: ([1., -.5], 1.), 3: ([1., .5, -1.], 1.5)}


def ops(n):
    """Operations that apply to an object of dimension n (the last component: dimension of the result)."""
    out = []
    if n > 1:
        for k in range(1, n):
            out += [(['project', list(d)], k) for d in itertools.permutations(range(n), k)]
    out += [(['cut'], n), (['copy'], n), (['copy-cut'], n), (['normalize'], n), (['remove'], n)]
    if n > 1:
        out += [(['hull'], n), (['hull-inner'], n)]
    if n in (2, 3):
        out += [(['meet', j], n) for j in range(3)] + [(['met', j], n) for j in range(3)]
    if n == 2:
        out += [(['product', j], 3) for j in range(2)]
    return out


def gen(tier):
    for n, src in ((2, SRC2), (3, SRC3)):
        for i in range(len(src)):
            for a, na in ops(n):
                for w in range(4):
                    yield [n, i, [a], w]
                for b, _ in ops(na):
                    if tier == 'quick' and n == 3 and (a[0] in ('meet', 'met', 'copy') or b[0] in ('meet', 'met', 'copy')):
                        continue
                    if b[0] == 'product' and na != 2:
                        continue
                    for w in (0, 1) if tier == 'quick' else range(4):
                        yield [n, i, [a, b], w]


WARM = [(), ('vertices',), ('radius', 'bounded'), ('center', 'empty', 'vertices')]


def apply(p, op, w):
    from pympc.geometry.polyhedron import Polyhedron
    for q in WARM[w]:
        getattr(p, q)
    n = p.A.shape[1]
    k = op[0]
    if k == 'project':
        return p.project_to(op[1])
    if k in ('cut', 'copy-cut'):
        if k == 'copy-cut':
            p = copy.copy(p)
        a, b = CUTS[n]
        p.add_inequality(np.array([a]), np.array([b]))
        return p
    if k == 'copy':
        return copy.copy(p)
    if k == 'normalize':
        p.normalize()
        return p
    if k == 'remove':
        p.remove_redundant_inequalities()
        return p
    if k in ('hull', 'hull-inner'):
        v = [np.array(t) for t in p.vertices]
        if k == 'hull-inner':
            v = [(v[0] + v[1]) * .5 + (v[2] - v[0]) * .25] + v + [sum(v) / len(v)]
        return Polyhedron.from_convex_hull(v)
    if k in ('meet', 'met'):
        q = poly.real((SRC2 if n == 2 else SRC3)[op[1]], [], n)
        for t in WARM[w]:
            getattr(q, t)
        return p.intersection(q) if k == 'meet' else q.intersection(p)
    if k == 'product':
        hi = 1. + op[1]
        return p.cartesian_product(Polyhedron(np.array([[1.], [-1.]]), np.array([hi, .5])))
    raise AssertionError(k)


def build(case):
    n, i, chain, w = case
    p = poly.real((SRC2 if n == 2 else SRC3)[i], [], n)
    for op in chain:
        p = apply(p, op, w)
    return p


BOUNDS = 'chains of one and two operations (project on every ordered choice, hull, intersection, product, cut, copy, normalize, remove) from 6 sets in dimension 2 and 3, with four combinations of questions in between'
