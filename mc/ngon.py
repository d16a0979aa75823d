"""Lattice polygons with many edges: the edges are all primitive integer vectors up to a size, in order of angle, so that rows and
vertices are integers known exactly."""
import math
from fractions import Fraction

SCALE = Fraction(1, 8)


def polygon(m, turn=0):
    """(rows, vertices): rows (a, b) with a integer and b rational, in order of angle; the polygon is centered at the origin."""
    vec = [(p, q) for p in range(-m, m + 1) for q in range(-m, m + 1) if math.gcd(abs(p), abs(q)) == 1]
    vec.sort(key=lambda v: math.atan2(v[1], v[0]))
    vec = vec[turn % len(vec):] + vec[:turn % len(vec)]
    x, y = Fraction(0), Fraction(0)
    V = []
    for p, q in vec:
        V.append((x, y))
        x, y = x + p * SCALE, y + q * SCALE
    n = len(V)
    cx, cy = sum(v[0] for v in V) / n, sum(v[1] for v in V) / n
    V = [(a - cx, b - cy) for a, b in V]
    rows = [((q, -p), q * v[0] - p * v[1]) for (p, q), v in zip(vec, V)]
    return rows, V


def shuffle(rows, k):
    """A deterministic permutation (multiplication by k modulo the length, k coprime)."""
    n = len(rows)
    while math.gcd(k, n) != 1:
        k += 1
    return [(i * k) % n for i in range(n)]


SIZES = {'quick': (2, 3, 4, 5), 'thorough': (1, 2, 3, 4, 5, 6)}
BOUNDS = 'lattice polygons with 16..80 (thorough 8..96) edges, known exactly, rows in several orders'


def gen(tier):
    for m in SIZES[tier]:
        for k in (1, 7, 11) if tier == 'quick' else (1, 3, 7, 11, 13):
            yield [m, k]


def arrays(rows):
    import numpy as np
    return np.array([[float(t) for t in a] for a, _ in rows]), np.array([float(b) for _, b in rows])


def real(rows):
    from pympc.geometry.polyhedron import Polyhedron
    return Polyhedron(*arrays(rows))
