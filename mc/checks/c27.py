"""
C27: plots.  Every trajectory / polytope / choice of components of finite pools is drawn on the Agg canvas and the artists are
read back: what they show (evaluated as a viewer would, whatever the drawing style) is compared with the data.
"""
import itertools
import numpy as np
from ..core import Cases, need
from ..ref import Poly, extreme_points
from .. import poly
from . import c21, c13
from .c01 import box


def plt_():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


def tex(s):
    return s.replace('$', '').replace('{', '').replace('}', '').replace(' ', '')


def value_at(line, t):
    """What the line shows at time t (strictly between its samples)."""
    x, y = np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)
    st = line.get_drawstyle()
    i = int(np.searchsorted(x, t)) - 1
    if i < 0 or i + 1 >= len(x):
        return None
    if st in ('steps-pre', 'steps'):
        return y[i + 1]
    if st == 'steps-post':
        return y[i]
    if st == 'steps-mid':
        return y[i] if t < .5 * (x[i] + x[i + 1]) else y[i + 1]
    return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i])


def shows(line, times, vals):
    for t, v in zip(times, vals):
        w = value_at(line, t)
        if w is None or abs(w - v) > 1e-9 * (1 + abs(v)):
            return False
    return True


# -- time plots -----------------------------------------------------------------------------------------------------------------

def seqs(tier):
    L = [1, 2, 3, 4, 5, 8, 13] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 21, 34]
    for N in (65, 130, 201) if tier == 'quick' else (65, 66, 101, 130, 201, 500):
        for n in (1, 2):
            yield n, N, [[((3 * i + 5 * t + t * t) % 1009 - 400) / 64. + i * t for i in range(n)] for t in range(N)]
    for n in (1, 2, 3, 4):
        for N in L:
            for seed in range(3 if N < 5 else 2):
                yield n, N, [[((3 * i + 5 * t + seed * (i + 1) * (t + 2)) % 11 - 5) / 4. for i in range(n)] for t in range(N)]


def gen_time(tier):
    for n, N, s in seqs(tier):
        for h in (1., .1, .375):
            for bnd in (0, 1, 2, 3) if N < 5 and h < 1. else (0, 1):
                yield ['input', s, h, bnd]
                if N > 1:
                    yield ['state', s, h, bnd]
                    for ny in (1, 2):
                        yield ['output%d' % ny, s, h, bnd]


def check_time(case, ctx):
    from pympc.plot import plot_input_sequence, plot_state_trajectory, plot_output_trajectory
    kind, s, h, bnd = case
    plt = plt_()
    ctx.state()
    v = [np.array(x) for x in s]
    n = len(s[0])
    C = None
    if kind.startswith('output'):
        ny = int(kind[-1])
        C = np.array([[(2 * i - j + 1) / 2. for j in range(n)] for i in range(ny)])
        show = [C.dot(x) for x in v]
        n = ny
    else:
        show = v
    bounds = [np.array([-2. - i for i in range(n)]), np.array([1.5 + .5 * i for i in range(n)])] if bnd else None
    if bnd == 2:        # one of the bounds holds integers
        bounds[0] = np.array([-2 - i for i in range(n)])
    elif bnd == 3:
        bounds = [np.array([-1.25 - i for i in range(n)]), np.array([3 + i for i in range(n)])]
    fig = plt.figure()
    args = (v, h) if C is None else (C, v, h)
    {'i': plot_input_sequence, 's': plot_state_trajectory, 'o': plot_output_trajectory}[kind[0]](*(args + ((bounds,) if bnd else ())))
    ctx.step()
    ctx.outcome(kind)
    axes = [a for a in fig.axes]
    need(len(axes) == n, '%d axes for %d components', len(axes), n)
    steps = len(s) if kind == 'input' else len(s) - 1
    mids = np.array([k + f for k in range(steps) for f in (.25, .75)]) * h
    for i, ax in enumerate(sorted(axes, key=lambda a: -a.get_position().y0)):
        if kind == 'input':
            want = [show[k][i] for k in range(steps) for _ in (0, 1)]
        else:
            want = [show[k][i] + f * (show[k + 1][i] - show[k][i]) for k in range(steps) for f in (.25, .75)]
        lines = ax.get_lines()
        targets = [want] + ([[b[i]] * len(want) for b in bounds] if bnd else [])
        for w in targets:
            need(any(shows(l, mids, w) for l in lines), '%s: component %d: no line shows %r at times %r', kind, i, w, mids.tolist())
        for l in lines:
            need(any(shows(l, mids, w) for w in targets), '%s: component %d: a line shows something else: %r', kind, i, np.asarray(l.get_ydata()).tolist())
            need(abs(min(l.get_xdata())) <= 1e-9 and abs(max(l.get_xdata()) - steps * h) <= 1e-9, '%s: time axis of the line from %g to %g', kind, min(l.get_xdata()), max(l.get_xdata()))
        need(np.allclose(ax.get_xlim(), (0., steps * h)), '%s: time axis %r for %d steps of %g', kind, ax.get_xlim(), steps, h)
        need(tex(ax.get_ylabel()) == '%s_%d' % ({'i': 'u', 's': 'x', 'o': 'y'}[kind[0]], i + 1), '%s: component %d is labelled %r', kind, i, ax.get_ylabel())
        # the legend names the lines it belongs to
        leg = ax.get_legend()
        if leg is not None and bnd:
            look = lambda l: (str(l.get_color()), str(l.get_linestyle()))
            data = {look(l) for l in lines if shows(l, mids, want)}
            lim = {look(l) for l in lines if not shows(l, mids, want)}
            if data and lim and not data & lim:
                for t, hd in zip(leg.get_texts(), leg.get_lines()):
                    is_bound = 'bound' in t.get_text().lower()
                    need(look(hd) not in (data if is_bound else lim), '%s: the legend entry %r is drawn like the %s', kind, t.get_text(), 'data' if is_bound else 'bounds')
    words = [t.get_text().lower() for a in axes if a.get_legend() is not None for t in a.get_legend().get_texts()]
    need(any('bound' in w for w in words) == bool(bnd) and any('bound' not in w for w in words), '%s: legend %r with%s bounds', kind, words, '' if bnd else 'out')
    need(tex(min(axes, key=lambda a: a.get_position().y0).get_xlabel()) == 't', '%s: the time axis is labelled %r', kind, [a.get_xlabel() for a in axes])
    need(all(np.array_equal(a, np.array(b)) for a, b in zip(v, s)), 'arguments modified')
    plt.close('all')


# -- state space -------------------------------------------------------------------------------------------------------------------

def gen_space(tier):
    for n, N, s in seqs(tier):
        if n < 2 or N < 2:
            continue
        for dim in [None] + [list(p) for p in itertools.permutations(range(n), 2)]:
            for text in (False, True):
                for label in (None, 'trajectory'):
                    yield [s, dim, text, label]


def check_space(case, ctx):
    from pympc.plot import plot_state_space_trajectory
    s, dim, text, label = case
    plt = plt_()
    ctx.state()
    x = [np.array(v) for v in s]
    fig = plt.figure()
    kw = {} if dim is None else {'dim': list(dim)}
    kw.update({'text': True} if text else {})
    kw.update({'label': label} if label else {})
    plot_state_space_trajectory(x, color='b', **kw)
    ctx.step()
    d = dim or [0, 1]
    ax = fig.axes[0]
    ctx.outcome('text' if text else 'plain')
    pts = [(float(v[d[0]]), float(v[d[1]])) for v in x]
    want = [frozenset((pts[t], pts[t + 1])) for t in range(len(pts) - 1)]
    drawn = []
    for l in ax.get_lines():
        q = list(zip(np.asarray(l.get_xdata(), dtype=float).tolist(), np.asarray(l.get_ydata(), dtype=float).tolist()))
        drawn += [frozenset((a, b)) for a, b in zip(q[:-1], q[1:])]
        need(l.get_color() == 'b', 'keyword arguments are not passed on: color %r', l.get_color())
    need(set(want) == set(drawn), 'segments %r drawn for %r on components %r', sorted(map(sorted, set(drawn))), pts, d)
    sc = [tuple(o) for c in ax.collections for o in np.asarray(c.get_offsets(), dtype=float).tolist()]
    need(sc == [pts[0]], 'initial condition drawn at %r instead of %r', sc, pts[0])
    need(tex(ax.get_xlabel()) == 'x_%d' % (d[0] + 1) and tex(ax.get_ylabel()) == 'x_%d' % (d[1] + 1), 'components %r labelled %r, %r', d, ax.get_xlabel(), ax.get_ylabel())
    texts = sorted((tex(t.get_text()), tuple(float(v) for v in t.get_position())) for t in ax.texts)
    need(texts == (sorted(('x(%d)' % t, p) for t, p in enumerate(pts)) if text else []), 'texts %r for the points %r', texts, pts)
    labels = [l.get_label() for l in ax.get_lines() if not str(l.get_label()).startswith('_')]
    need(labels == ([label] if label else []), 'labels of the lines: %r', labels)
    plt.close('all')


# -- polyhedra ------------------------------------------------------------------------------------------------------------------------

def area(q):
    q = np.array(q, dtype=float)
    return .5 * abs(np.dot(q[:, 0], np.roll(q[:, 1], -1)) - np.dot(q[:, 1], np.roll(q[:, 0], -1)))


def judge_patch(patch, pts, what, strict=True):
    """The closed polygon of the patch is the hull of the points (floats or fractions); further corners only on its boundary,
    and none at all when strict."""
    v = patch.get_path().vertices[:-1]
    ex = [np.array([float(t) for t in e]) for e in pts]
    for w in v if strict else ():
        need(any(np.abs(w - e).max() <= 1e-5 * (1 + np.abs(e).max()) for e in ex), '%s: corner %r is not a vertex of the projection %r', what, w.tolist(), [e.tolist() for e in ex])
    for e in ex:
        need(any(np.abs(w - e).max() <= 1e-5 * (1 + np.abs(e).max()) for w in v), '%s: vertex %r is not drawn', what, e.tolist())
    c = np.mean(ex, axis=0)
    order = sorted(ex, key=lambda e: np.arctan2(e[1] - c[1], e[0] - c[0]))
    need(abs(area(v) - area(order)) <= 1e-5 * (1 + area(order)), '%s: the drawn polygon is not convex (area %g instead of %g)', what, area(v), area(order))


def gen_poly(tier):
    for n, ineqs in c13.bodies('quick'):
        if n < 2 or n > 4:
            continue
        if Poly.build(n, ineqs).dim() < n:
            continue
        for d in [None] + [list(p) for p in itertools.permutations(range(n), 2)]:
            yield [n, ineqs, [], d]
    for n in (3, 4):
        b = box(n, -1, 2)
        for eq in ([1] * n, [1, -1] + [0] * (n - 2), [0] * (n - 1) + [1]):
            for d in itertools.permutations(range(n), 2):
                yield [n, b, [[eq, .5]], list(d)]
    # nothing to draw
    for n in (2, 3):
        yield [n, [[[1] + [0] * (n - 1), 1]], [], None]
        yield [n, [[[1] + [0] * (n - 1), -1], [[-1] + [0] * (n - 1), 0]], [], None]


def check_poly(case, ctx):
    import contextlib, io
    n, ineqs, eqs, d = case
    plt = plt_()
    ctx.state()
    r = Poly.build(n, ineqs, eqs)
    p = poly.real(ineqs, eqs, n)
    fig = plt.figure()
    kw = {} if d is None else {'residual_dimensions': list(d)}
    with contextlib.redirect_stdout(io.StringIO()):
        if r.empty or not r.bounded:
            p.plot(**kw)
            ctx.outcome('nothing')
            need(not any(len(a.patches) for a in fig.axes), 'something drawn for an empty or unbounded set')
            return
        dd = d or [0, 1]
        ex = extreme_points([(v[dd[0]], v[dd[1]]) for v in r.vertices()])
        c = [float(t) for t in ex[0]]
        span = np.array([[float(a) - b for a, b in zip(e, c)] for e in ex])
        if np.linalg.matrix_rank(span) < 2:
            ctx.skip('projection without interior')
            return
        p.plot(facecolor='r', **kw)
    ctx.step()
    ctx.outcome('polygon')
    ax = fig.axes[0]
    need(len(ax.patches) == 1, '%d patches', len(ax.patches))
    import matplotlib.colors as mc
    need(tuple(ax.patches[0].get_facecolor()) == mc.to_rgba('r'), 'keyword arguments are not passed on')
    judge_patch(ax.patches[0], ex, 'projection onto %r' % (dd,))
    need(tex(ax.get_xlabel()) == 'x_%d' % (dd[0] + 1) and tex(ax.get_ylabel()) == 'x_%d' % (dd[1] + 1), 'components %r labelled %r, %r', dd, ax.get_xlabel(), ax.get_ylabel())
    lo, hi = np.array([[float(t) for t in e] for e in ex]).min(0), np.array([[float(t) for t in e] for e in ex]).max(0)
    xl, yl = ax.get_xlim(), ax.get_ylim()
    need(xl[0] <= lo[0] + 1e-6 and xl[1] >= hi[0] - 1e-6 and yl[0] <= lo[1] + 1e-6 and yl[1] >= hi[1] - 1e-6, 'the polygon is cut off by the axes %r %r', xl, yl)
    plt.close('all')


# -- several things drawn one after the other in the same figure -------------------------------------------------------------------

def gen_many(tier):
    things = [['p', 2, None], ['p', 2, [1, 0]], ['p', 3, [0, 2]], ['p', 3, None], ['t', 2, None], ['t', 3, [2, 0]], ['t', 2, None]]
    for k in (2, 3):
        for w in itertools.product(range(len(things)), repeat=k):
            if k == 3 and tier == 'quick' and sum((3 * i + 1) * v for i, v in enumerate(w)) % 3:
                continue
            yield [[things[i] for i in w], list(w)]


def check_many(case, ctx):
    from pympc.plot import plot_state_space_trajectory
    things, seeds = case
    plt = plt_()
    ctx.state()
    fig = plt.figure()
    np_, nt = [], []
    d = None
    for (kind, n, dim), k in zip(things, seeds):
        kw = {} if dim is None else {'residual_dimensions' if kind == 'p' else 'dim': list(dim)}
        d = dim or [0, 1]
        if kind == 'p':
            lo, hi = [-1 - .5 * k - .25 * i for i in range(n)], [1 + .25 * k * (i + 1) for i in range(n)]
            poly.real([[[int(i == j) for j in range(n)], hi[i]] for i in range(n)] + [[[-int(i == j) for j in range(n)], -lo[i]] for i in range(n)], [], n).plot(**kw)
            np_.append([(x, y) for x in (lo[d[0]], hi[d[0]]) for y in (lo[d[1]], hi[d[1]])])
        else:
            x = [np.array([((5 * t + 3 * i + k * (t + 1)) % 13 - 6) / 4. for i in range(n)]) for t in range(3 + k % 2)]
            plot_state_space_trajectory(x, **kw)
            nt.append([(float(v[d[0]]), float(v[d[1]])) for v in x])
        ctx.step()
        need(len(fig.axes) == 1, '%d axes', len(fig.axes))
        ax = fig.axes[0]
        need(len(ax.patches) == len(np_), '%d patches after %d polytopes', len(ax.patches), len(np_))
        for pa, pts in zip(ax.patches, np_):
            judge_patch(pa, pts, 'polytope')
        drawn = set()
        for l in ax.get_lines():
            q = list(zip(np.asarray(l.get_xdata(), dtype=float).tolist(), np.asarray(l.get_ydata(), dtype=float).tolist()))
            drawn |= {frozenset(z) for z in zip(q[:-1], q[1:])}
        need(drawn == {frozenset(z) for q in nt for z in zip(q[:-1], q[1:])}, 'segments %r for the trajectories %r', sorted(map(sorted, drawn)), nt)
        sc = [tuple(o) for c in ax.collections for o in np.asarray(c.get_offsets(), dtype=float).tolist()]
        need(sc == [q[0] for q in nt], 'initial conditions drawn at %r instead of %r', sc, [q[0] for q in nt])
        need(tex(ax.get_xlabel()) == 'x_%d' % (d[0] + 1) and tex(ax.get_ylabel()) == 'x_%d' % (d[1] + 1), 'components %r labelled %r, %r', d, ax.get_xlabel(), ax.get_ylabel())
    ctx.outcome(''.join(t[0] for t in things))
    plt.close('all')


# -- controllers -----------------------------------------------------------------------------------------------------------------------

def gen_mpc(tier):
    for s in ('double', 'spiral', 'coupled-2u'):
        for N in (1, 2, 3):
            if s == 'coupled-2u' and N > 1 + (tier != 'quick'):
                continue
            for d in ('box', 'asym', 'mixed'):
                for t in ('box', 'asym', 'slab'):
                    yield [s, N, d, t, 'unit']


def check_mpc(case, ctx):
    plt = plt_()
    ref, C, nx, nu = c21.problem(case)
    ctx.state()
    np.random.seed(0)
    C.store_explicit_solution()
    crs = C.explicit_solution.critical_regions
    for text in (False, True):
        fig = plt.figure()
        C.plot_state_space_partition(**({'print_active_set': True} if text else {}))
        ctx.step()
        ax = fig.axes[0]
        drawn = list(ax.patches)
        regions = [c for c in crs if c.polyhedron.vertices is not None]
        need(len(drawn) == len(regions), '%d patches for %d critical regions', len(drawn), len(regions))
        for c in regions:
            mid = np.mean(c.polyhedron.vertices, axis=0)
            pa = min(drawn, key=lambda q: np.abs(np.mean(q.get_path().vertices[:-1], axis=0) - mid).max())
            judge_patch(pa, [tuple(v) for v in c.polyhedron.vertices], 'region of the active set %r' % (c.active_set,))
        if text:
            got = sorted((t.get_text(), tuple(np.round(t.get_position(), 6))) for t in ax.texts)
            want = sorted((str(c.active_set), tuple(np.round(c.polyhedron.center, 6))) for c in regions)
            need(got == want, 'active sets written %r instead of %r', got, want)
        else:
            need(not ax.texts, 'active sets written without being asked for')
        plt.close('all')
    ctx.outcome('partition')
    # value function: feasible set drawn, every contour lies at its level
    fig = plt.figure()
    C.plot_optimal_value_function(resolution=40)
    ctx.step()
    ax = fig.axes[0]
    need(len(ax.patches) == 1, '%d patches for the feasible set', len(ax.patches))
    rows, _ = ref.feasible_param_rows()
    # (the vertices of a projection may list further points of its boundary)
    judge_patch(ax.patches[0], extreme_points([v[:2] for v in Poly.build(nx + ref.N * nu, rows).vertices()]), 'feasible set', False)
    sets = [c for c in ax.collections if hasattr(c, 'levels')]
    need(len(sets) == 1, '%d contour sets', len(sets))
    cs = sets[0]
    n = 0
    for level, path in zip(cs.levels, cs.get_paths()):
        gap = np.min(np.diff(cs.levels))
        for v in path.vertices[::7]:
            V = C.feedforward(np.array(v))[1]
            if V is None:
                continue
            n += 1
            need(abs(V - level) <= .35 * gap, 'the contour of level %g passes through %r, where the value is %g', level, v.tolist(), V)
    need(n > 0, 'no contour inside the feasible set')
    # ... and wherever the value crosses a level inside the feasible set a contour passes by
    ex = np.array([[float(t) for t in e] for e in extreme_points([v[:2] for v in Poly.build(nx + ref.N * nu, rows).vertices()])])
    cell = (ex.max(0) - ex.min(0)) / 39.
    mid = ex.mean(0)
    got = {float(l): q.vertices for l, q in zip(cs.levels, cs.get_paths()) if len(q.vertices)}
    for e in ex:
        pts = [mid + .04 * k * (e - mid) for k in range(21)]
        vals = [C.feedforward(q)[1] for q in pts]
        for a, b, q, r in zip(vals[:-1], vals[1:], pts[:-1], pts[1:]):
            for l in cs.levels:
                if a is not None and b is not None and min(a, b) < l < max(a, b):
                    near = l in got and np.min(np.max(np.abs((got[l] - .5 * (q + r)) / cell), axis=1)) <= 4. + np.max(np.abs((r - q) / cell))
                    need(near, 'the value crosses the level %g between %r and %r, and no contour passes there', l, q.tolist(), r.tolist())
    ctx.outcome('value function')
    plt.close('all')


LAYERS = [Cases('time', gen_time, check_time, 'sequences of 1..4 components and up to 201 (thorough 500) steps x steps h x with and without bounds, inputs / states / outputs'),
          Cases('state-space', gen_space, check_space, 'trajectories of 2..3 states x all ordered pairs of components x texts x labels'),
          Cases('polyhedra', gen_poly, check_poly, 'polytopes in dimension 2..4 (with and without equalities) x all ordered pairs of components; empty and unbounded sets'),
          Cases('many', gen_many, check_many, 'sequences of 2..3 polytopes / trajectories drawn in one figure, all ordered choices'),
          Cases('controllers', gen_mpc, check_mpc, 'state-space partitions and value functions of 2-state MPC problems', time_limit=300.)]
