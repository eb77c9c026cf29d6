"""C13: derivative, interval polynomials and sampling agree with the function itself."""
import itertools
import numpy as np
import casadi as cs
import pw
from core import sequences
from exact import Fr, polyval
from c12 import setup
from casadi_extras.collocation.piecewise_poly import PiecewisePoly
from casadi_extras.collocation import polynomial as P

BOUNDS = {
    'quick': 'grids of 1 to 4 unequal intervals (as in C12) from 3 starts; 5, 6, 11 and 16 intervals for 5 of the bases, intervals of length 1e-5 to 1e3; 12 bases of 1 to 6 nodes; unit coefficients for every interval and node, polynomials of every lower degree including zero, very large and very small values, 1 and 2 components; derivative repeated up to the number of nodes; polynomial of every interval; sampling with 12 steps (above, equal to, dividing and not dividing the interval lengths); all sequences of 3 operations (derivative, polynomial, sampling, evaluation) with the original compared afterwards; every ordered pair A, B of similar grids used one after the other as A, B, A in one process',
    'thorough': 'grids of up to 5 intervals, 20 steps, sequences of 4 operations',
}
STEPS = [10.0, 3.0, 1.0, 0.5, 0.25, 0.1, 0.07, 1 / 3, 0.05, 0.3, 2.0, 1 / 49]


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for n in (1, 2, 3, 4) + ((5,) if t else ()):
        for ls in pw.grids(n) if n < 5 else [[1.0, 0.25, 3.0, 0.1, 0.7], [0.2] * 5]:
            for st in pw.STARTS:
                for b in pw.BASES:
                    for do in ('derivative', 'poly', 'discretize'):
                        out.append({'do': do, 'lengths': ls, 'start': st, 'basis': b, 'all': t})
    for ls, st, b, do in itertools.product(pw.LONG + pw.SHORT, pw.STARTS, pw.LONG_BASES, ('derivative', 'poly', 'discretize')):
        out.append({'do': do, 'lengths': ls, 'start': st, 'basis': b, 'all': t})
    for b in pw.BASES:
        for iv in ([0, 1], [0, 1, 3], [-2, 0, 1, 5]):
            for do in ('derivative', 'poly', 'discretize'):
                out.append({'do': do, 'breaks': iv, 'form': 'int', 'basis': b, 'all': t})
                out.append({'do': do, 'breaks': iv, 'form': 'array', 'basis': b, 'all': t, 'dm': do != 'poly'})
            for ops in itertools.product(range(5), repeat=4 if t else 3):
                out.append({'do': 'history', 'breaks': iv, 'basis': b, 'ops': list(ops)})
    out += sequences([dict(g, do=do, basis=b, form='list', all=False) for g in pw.ALIKE for b in ('ends', 'ends_rev', 'three') for do in ('derivative', 'discretize')])
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.outcome(scn)
    ctx.trace()


def data_sets(t, tau, units):
    """Coefficient sets with what they mean: rows of nodal values per interval."""
    N, n = len(t) - 1, len(tau)
    yield 'unit', units
    for d in range(n):
        yield 'degree %d' % d, [np.array([[(i + 1.0) * (v - 0.3) ** d for v in tau], [2.0 - i + v ** d for v in tau]]) for i in range(N)]
    yield 'zero', [np.zeros((1, n)) for i in range(N)]
    for s in (60, -60):
        yield 'scaled by 2**%d' % s, [2.0 ** s * np.array([[(i + 1.0) * v - k * k for k, v in enumerate(tau)]]) for i in range(N)]
    # some intervals constant, others of full degree
    yield 'mixed', [np.array([[1.5] * n if i % 2 else [v ** (n - 1) - 0.25 * k for k, v in enumerate(tau)]]) for i in range(N)]


def magnitude(c):
    m = np.max(np.abs(c))
    return m if 0 < m < 1e-6 else 1 + m


def exp_value(E, c, i, q, d=0):
    w = E.row(i, q, d)
    return np.asarray(c[i]) @ np.array(w), E.tol(i, q, d) * magnitude(c[i]) * E.n * 5


def make(scn, given, tau, c):
    c = [cs.DM(m) for m in c] if scn.get('dm') else [m.copy() for m in c]
    return PiecewisePoly(given, c, P.PolynomialBasis(np.array(tau))), c


def unchanged(ctx, p, c0, c, given, t, what):
    ctx.expect(all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(c, c0)) and [float(v) for v in given] == t and [float(v) for v in p.intervals] == t,
               lambda: 'the original is changed by %s' % what)


def run_derivative(scn, ctx):
    t, tau, given, units = setup(scn)
    E = pw.Exact(t, tau)
    n = len(tau)
    for name, c0 in data_sets(t, tau, units):
        p, c = make(scn, given, tau, c0)
        d = p
        for order in range(1, n + 1):
            d = d.derivative()
            ctx.step()
            ctx.expect(d.numIntervals == len(t) - 1 and [float(v) for v in d.intervals] == t, 'intervals of the derivative: %s' % (d.intervals,))
            for side in ('left', 'right'):
                qs = pw.query_points(t)
                r = d(qs, side)
                ctx.expect(np.shape(r) == (c0[0].shape[0], len(qs)), lambda: 'shape %s' % (np.shape(r),))
                for k, q in enumerate(qs):
                    i = pw.piece(t, q, side)
                    e, tol = exp_value(E, c0, i, q, order)
                    ctx.expect(np.max(np.abs(np.asarray(r[:, k]).reshape(-1) - e)) <= tol,
                               lambda: 'derivative %d of %s data at %r (%s): %s instead of %s' % (order, name, q, side, r[:, k], e))
                ctx.step()
            ctx.state((name, order))
            unchanged(ctx, p, c0, c, given, t, 'derivative')


def run_poly(scn, ctx):
    t, tau, given, units = setup(scn)
    E = pw.Exact(t, tau)
    for name, c0 in data_sets(t, tau, units):
        p, c = make(scn, given, tau, c0)
        for i in range(len(t) - 1):
            ps = p.poly(i)
            ctx.step()
            ctx.expect(len(ps) == c0[0].shape[0], lambda: '%d polynomials' % len(ps))
            h = t[i + 1] - t[i]
            for s in (0.0, 0.3, 0.5, 1.0, 1.2, -0.1):
                for row, q in enumerate(ps):
                    x = s * h
                    w = [float(polyval(cf, Fr(x) / (Fr(t[i + 1]) - Fr(t[i])))) for cf in E.L.coef]
                    e = float(np.dot(c0[i][row], w))
                    size = sum(abs(a) * E.L.size(j, max(abs(s), 0.1)) for j, a in enumerate(c0[i][row]))
                    ctx.expect(abs(q(x) - e) <= 1e-12 * E.n ** 2 * (size + 1e-300) * (1 + abs(t[i + 1]) / h * 1e-2),
                               lambda: 'polynomial %d of interval %d, %s data, at offset %r: %r instead of %r' % (row, i, name, x, q(x), e))
            # the value of the function itself
            got = np.asarray(p([t[i] + 0.4 * h])).reshape(-1)
            for row, q in enumerate(ps):
                size = sum(abs(a) * E.L.size(j, 1.0) for j, a in enumerate(c0[i][row]))
                ctx.expect(abs(q(0.4 * h) - got[row]) <= 1e-11 * E.n ** 2 * (size + 1e-300) * (1 + abs(t[i + 1]) / h),
                           lambda: 'polynomial %d of interval %d: %r, the function: %r' % (row, i, q(0.4 * h), got[row]))
            ctx.state((name, i))
        unchanged(ctx, p, c0, c, given, t, 'poly')


def check_samples(ctx, E, c0, t, step, x, y, what):
    rows = c0[0].shape[0]
    N = len(t) - 1
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    ctx.expect(x.ndim == 1 and y.shape == (rows, x.size), lambda: '%s: shapes %s and %s' % (what, x.shape, y.shape))
    scale = max(abs(v) for v in t) + 1.0
    tiny = 1e-13 * scale
    ctx.expect(abs(x[0] - t[0]) <= tiny and abs(x[-1] - t[-1]) <= tiny, lambda: '%s: from %r to %r' % (what, x[0], x[-1]))
    ctx.expect(np.all(np.diff(x) >= -tiny), lambda: '%s: points out of order: %s' % (what, x))
    ctx.expect(np.all(np.diff(x) <= step * (1 + 1e-9) + tiny), lambda: '%s: points too far apart: %s' % (what, x))

    def fits(k, i):
        e, tol = exp_value(E, c0, i, min(max(x[k], t[i]), t[i + 1]))
        return np.max(np.abs(y[:, k] - e)) <= tol + 1e-9 * (np.max(np.abs(e)) + magnitude(c0[i]))
    inner = [np.where(np.abs(x - b) <= tiny)[0] for b in t]
    for k in range(x.size):
        if any(k in ids for ids in inner[1:-1]):
            continue
        i = pw.piece(t, x[k], 'right') if x[k] > t[0] else 0
        ctx.expect(fits(k, i), lambda: '%s: value %s at %r' % (what, y[:, k], x[k]))
    for b in range(1, N):
        ids = inner[b]
        ctx.expect(len(ids) >= 2, lambda: '%s: the break %r is there %d times' % (what, t[b], len(ids)))
        ctx.expect(any(all(fits(k, b - 1) for k in ids[:m]) and all(fits(k, b) for k in ids[m:]) for m in range(1, len(ids))),
                   lambda: '%s: values %s at the break %r' % (what, y[:, ids].tolist(), t[b]))


def run_discretize(scn, ctx):
    t, tau, given, units = setup(scn)
    E = pw.Exact(t, tau)
    steps = STEPS + ([0.011, 0.9, 0.15, 0.02, 1.5] if scn['all'] else [])
    for name, c0 in data_sets(t, tau, units):
        p, c = make(scn, given, tau, c0)
        for k, step in enumerate(steps if name == 'unit' else steps[::4]):
            if (t[-1] - t[0]) / step > 60:
                continue
            x, y = p.discretize(step)
            ctx.step()
            check_samples(ctx, E, c0, t, step, x, y, 'sampling %s data with step %r' % (name, step))
            ctx.state((name, k))
        unchanged(ctx, p, c0, c, given, t, 'discretize')


def run_history(scn, ctx):
    """Operations in any order; each result agrees with the current function, the first object stays as it was."""
    t, tau, given, units = setup(scn)
    E = pw.Exact(t, tau)
    c0 = [np.array([[1.0 + i - 2.0 * j * j + 0.25 * k for j, v in enumerate(tau)] for k in range(2)]) for i in range(len(t) - 1)]
    p, c = make(scn, given, tau, c0)
    stack, d = [(p, 0)], 0
    cur = p
    for op in scn['ops']:
        ctx.step()
        ctx.history.append(op)
        if op == 0:
            cur, d = cur.derivative(), d + 1
            stack.append((cur, d))
        elif op == 1:
            cur.poly(len(t) - 2)
        elif op == 2:
            cur.discretize(0.4)
        elif op == 3:
            cur([0.5, t[0], t[-1]], 'left')
        else:
            cur, d = p, 0
        ctx.state(tuple(ctx.history))
        qs = [q for q in pw.query_points(t) if t[0] <= q <= t[-1]]
        for f, k in stack:
            if k > E.n:
                continue
            r = np.asarray(f(qs))
            for m, q in enumerate(qs):
                i = pw.piece(t, q, 'right')
                e, tol = exp_value(E, c0, i, q, k)
                ctx.expect(np.max(np.abs(r[:, m] - e)) <= tol, lambda: 'derivative %d at %r after %s: %s instead of %s' % (k, q, ctx.history, r[:, m], e))
    unchanged(ctx, p, c0, c, given, t, 'the operations')
