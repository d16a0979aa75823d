"""
Finite constraint alphabets and the choice trees built from them (shared by the solver and polyhedron checks).

A node of a tree is a list of constraints, (row, rhs); each edge appends one letter of the alphabet.  The exact
reference polyhedron is carried along the tree (double description is incremental), so that judging a node is cheap.
"""
import itertools
from .ref import Poly


def rows(n, vals=(-1, 0, 1), zero=True):
    """All rows with entries in vals, simplest first."""
    r = [t for t in itertools.product(vals, repeat=n)]
    if not zero:
        r = [t for t in r if any(t)]
    return sorted(r, key=lambda t: (sum(abs(x) for x in t), t[::-1]))


def letters(n, rhs, vals=(-1, 0, 1), zero=True, only=None):
    rs = rows(n, vals, zero) if only is None else only
    return [(a, b) for a in rs for b in rhs]


def halflines(n, vals=(-1, 0, 1)):
    """Rows up to sign (for equalities)."""
    out = []
    for a in rows(n, vals, zero=False):
        if tuple(-x for x in a) not in out:
            out.append(a)
    return out


class Tree(object):
    """
    Enumerates constraint lists: every sequence (ordered=True) or every multiset (ordered=False) of 1..depth letters,
    after every one of the equality lists in eqs.
    """

    def __init__(self, n, ineq, depth, eqs=((),), ordered=True, min_depth=1, base=()):
        self.n, self.ineq, self.depth, self.eqs = n, list(ineq), depth, [tuple(e) for e in eqs]
        self.ordered, self.min_depth, self.base = ordered, min_depth, tuple(base)

    def shards(self):
        out = []
        for i in range(len(self.eqs)):
            if self.min_depth == 0 or self.depth == 0:
                out.append([i, None])
            if self.depth > 0:
                for k in range(len(self.ineq)):
                    out.append([i, k])
        # group small ones
        g = max(1, len(out) // 160)
        return [out[i:i + g] for i in range(0, len(out), g)]

    def walk(self, shard_group):
        """Yields (ineq list, eq list, exact polyhedron) for every node below the shard."""
        for i, k in shard_group:
            eqs = list(self.eqs[i])
            p = Poly.build(self.n, self.base, eqs)
            if k is None:
                yield list(self.base), eqs, p
                continue
            a, b = self.ineq[k]
            stack = [([(a, b)], k, p.add(a, b))]
            while stack:
                ineqs, last, q = stack.pop()
                if len(ineqs) >= self.min_depth:
                    yield list(self.base) + ineqs, eqs, q
                if len(ineqs) < self.depth:
                    rng = range(len(self.ineq)) if self.ordered else range(last, len(self.ineq))
                    for j in reversed(rng):
                        a, b = self.ineq[j]
                        stack.append((ineqs + [(a, b)], j, q.add(a, b)))

    def describe(self):
        return 'n=%d, %d equality lists x %s of %d..%d inequalities from an alphabet of %d%s' % (
            self.n, len(self.eqs), 'sequences' if self.ordered else 'multisets', self.min_depth, self.depth,
            len(self.ineq), (' on top of %d fixed rows' % len(self.base)) if self.base else '')


def eq_lists(n, rhs=(-1, 0, 1), maxlen=1, vals=(0, 1, -1), lets=None):
    """Equality lists of length 0..maxlen (ordered, repetition allowed: dependent equalities are included)."""
    if lets is None:
        lets = [(c, d) for c in halflines(n, vals) for d in rhs]
    out = []
    for k in range(maxlen + 1):
        out += list(itertools.product(lets, repeat=k))
    return out
