"""C14: differential quadrature differentiates and integrates exactly on its grid."""
import itertools
import numpy as np
import casadi as cs
import exact as X
import pw
from core import sequences
from exact import Fr
from c01 import must_raise
from c10 import reference_nodes
import casadi_extras as ce

BOUNDS = {
    'quick': 'grids of 1 to 4 unequal intervals (all selections of 3 lengths for 1 and 2 intervals, all arrangements of 4 lengths above) from 3 starts, given as list, tuple, array or integers; grids of 5 and 6 intervals from one start, of 11 and 16 intervals and of lengths 1e-5 to 1e3 for 5 families; chebyshev of order 1 to 12 and radau of order 1 to 9, positional and default arguments; chebyshev of order 20; unit samples (they span all data) as DM, numpy, MX and SX, 1 to 3 rows, values scaled by 2**60 and 2**-60; piecewise constant inputs; all wrong numbers of columns in [0, n + 2]; every grid of 2 to 4 points with a non-ascending pair; every ordered pair A, B of similar grids used one after the other as A, B, A in one process',
    'thorough': 'as quick',
}
ASSUMPTIONS = ['node families with both interval ends (chebyshev, radau)']


def scenarios(tier):
    out = []
    fams = [('chebyshev', o) for o in range(1, 13)] + [('radau', o) for o in range(1, 10)]
    k = 0
    for n in (1, 2, 3, 4):
        for ls in pw.grids(n):
            for st in pw.STARTS:
                for fam, o in fams:
                    k += 1
                    out.append({'do': 'grid', 'lengths': ls, 'start': st, 'family': fam, 'order': o, 'form': ('list', 'array', 'tuple')[k % 3]})
    for ls, st, (fam, o) in itertools.product(pw.LONG + pw.SHORT, pw.STARTS, [('chebyshev', 1), ('chebyshev', 2), ('chebyshev', 4), ('radau', 1), ('radau', 3)]):
        out.append({'do': 'grid', 'lengths': ls, 'start': st, 'family': fam, 'order': o, 'form': 'array'})
    for ls in ([1.0, 0.25, 3.0, 0.1, 0.7], [0.2] * 6, [0.1, 0.2, 0.4, 0.8, 1.6, 3.2]):
        for fam, o in fams:
            out.append({'do': 'grid', 'lengths': ls, 'start': -1.0, 'family': fam, 'order': o, 'form': 'list'})
    for iv in ([0, 1], [0, 1, 3], [-2, 0, 1, 5]):
        for fam, o in fams + [('chebyshev', 8), ('chebyshev', 12), ('chebyshev', 20)]:
            out.append({'do': 'grid', 'breaks': iv, 'family': fam, 'order': o, 'form': 'int'})
            out.append({'do': 'types', 'breaks': iv, 'family': fam, 'order': o, 'form': 'list'})
            out.append({'do': 'sizes', 'breaks': iv, 'family': fam, 'order': o, 'form': 'list'})
        out.append({'do': 'grid', 'breaks': iv, 'family': 'chebyshev', 'order': 5, 'form': 'list', 'default': True})
    out.append({'do': 'order'})
    out += sequences([dict(g, do='grid', family=f, order=o, form='list') for g in pw.ALIKE for f in ('chebyshev', 'radau') for o in (2, 3)])
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.trace()


def make(scn):
    t = [float(v) for v in scn['breaks']] if 'breaks' in scn else pw.breaks(scn['start'], scn['lengths'])
    given = {'list': lambda: list(t), 'array': lambda: np.array(t), 'tuple': lambda: tuple(t), 'int': lambda: [int(v) for v in t]}[scn['form']]()
    n = scn['order']
    if scn.get('default'):
        return t, n, ce.Pdq(given)
    if scn['family'] == 'chebyshev' and n % 2:
        return t, n, ce.Pdq(given, n)
    return t, n, ce.Pdq(given, poly_order=n, polynomial_type=scn['family'])


def exact_D(t, n, pts):
    """Derivative at every point but the last as a matrix on the values."""
    P = len(pts)
    D, size = np.zeros((P, P - 1)), np.zeros(P - 1)
    for i in range(len(t) - 1):
        M = X.Lagrange(pts[i * n:(i + 1) * n + 1]).D()
        for j in range(n):
            for k in range(n + 1):
                D[i * n + k, i * n + j] = float(M[j][k])
            size[i * n + j] = sum(abs(float(v)) for v in M[j])
    return D, size


def exact_I(t, n, pts):
    """Value minus initial value at every point but the first as a matrix on the derivatives."""
    P = len(pts)
    I = np.zeros((P - 1, P - 1))
    for i in range(len(t) - 1):
        a = Fr(float(pts[i * n]))
        L = X.Lagrange([float(Fr(float(v)) - a) for v in pts[i * n:(i + 1) * n]])
        for m in range(n):
            for k in range(1, n + 1):
                I[i * n + m, i * n + k - 1] = float(L.integral(m, Fr(float(pts[i * n + k])) - a))
            I[i * n + m, (i + 1) * n:] = I[i * n + m, (i + 1) * n - 1]
    return I


def run_grid(scn, ctx):
    t, n, pdq = make(scn)
    N = len(t) - 1
    scale = max(map(abs, t)) + 1
    pts = np.asarray(pdq.collocationPoints)
    ctx.step()
    ctx.state((tuple(t), n, scn['family']))
    ctx.expect(pts.shape == (N * n + 1,), lambda: '%s collocation points' % (pts.shape,))
    tau = reference_nodes(scn['family'], n)
    e = np.append(np.concatenate([t[i] + (t[i + 1] - t[i]) * tau[:-1] for i in range(N)]), t[-1])
    ctx.expect(np.max(np.abs(pts - e)) <= 1e-11 * scale, lambda: 'collocation points %s instead of %s' % (pts, e))
    ctx.expect([pts[i * n] for i in range(N)] == t[:-1] and abs(pts[-1] - t[-1]) <= 1e-14 * scale, lambda: 'the breaks are not collocation points: %s' % pts)
    ctx.expect(list(pdq.intervalBounds) == t and pdq.numIntervals == N and pdq.polyOrder == n, 'interval bounds, number or order')
    ctx.expect(pdq.t0 == pts[0] and pdq.tf == pts[-1] and pdq.intervalLength() == pts[-1] - pts[0], 'ends or length')
    P = len(pts)
    D, size = exact_D(t, n, pts)
    got = np.asarray(pdq.derivative(np.eye(P)))
    ctx.step()
    ctx.expect(got.shape == (P, P - 1), lambda: 'derivative of shape %s' % (got.shape,))
    bad = np.abs(got - D) > 1e-11 * (n + 1) * size[None, :]
    ctx.expect(not bad.any(), lambda: 'derivative of the unit sample at point %d, at point %d: %r instead of %r' % (
        tuple(np.argwhere(bad)[0]) + (got[tuple(np.argwhere(bad)[0])], D[tuple(np.argwhere(bad)[0])])))
    I = exact_I(t, n, pts)
    got = cs.evalf(pdq.integral(cs.DM.eye(P - 1))).full()
    ctx.step()
    ctx.expect(got.shape == I.shape, lambda: 'integral of shape %s' % (got.shape,))
    bad = np.abs(got - I) > 1e-9 * (t[-1] - t[0])
    ctx.expect(not bad.any(), lambda: 'integral of the unit derivative at point %d, at point %d: %r instead of %r' % (
        tuple(np.argwhere(bad)[0]) + (got[tuple(np.argwhere(bad)[0])], I[tuple(np.argwhere(bad)[0])])))
    u = np.array([[10. * i + k + 1 for k in range(N)] for i in range(3)])
    got = cs.DM(pdq.expandInput(cs.DM(u))).full()
    ctx.step()
    ctx.expect(got.tolist() == np.repeat(u, n, axis=1).tolist(), lambda: 'expanded input %s' % got)
    # splitting: values and order of the whole agree with differentiating the integral
    back = cs.evalf(pdq.derivative(cs.horzcat(cs.DM.zeros(P - 1), pdq.integral(cs.DM.eye(P - 1))))).full()
    ctx.expect(np.max(np.abs(back - np.eye(P - 1))) <= 1e-8 * (1 + np.max(size) * (t[-1] - t[0]) * 1e-3), lambda: 'derivative of the integral: %s' % back)
    ctx.outcome(pts.tolist())


def run_types(scn, ctx):
    t, n, pdq = make(scn)
    N, P = len(t) - 1, len(t) * n - n + 1
    pts = pdq.collocationPoints
    D, size = exact_D(t, n, pts)
    I = exact_I(t, n, pts)
    for rows, scale in ((1, 1), (2, 1), (3, 1), (1, 2.0 ** 60), (2, 2.0 ** -60)):
        def data(cols):
            return np.array([[(3 * i + 2 * k * k) % 11 - 4.5 + 0.25 * k for k in range(cols)] for i in range(rows)])
        for T in ('DM', 'np', 'MX', 'SX', 'expr'):
            for what, cols, M in (('derivative', P, D), ('integral', P - 1, I), ('expandInput', N, None)):
                if T == 'SX' and what == 'integral':
                    continue
                v = scale * data(cols)
                f = getattr(pdq, what)
                if T == 'np':
                    r = cs.evalf(cs.MX(f(v))).full()
                elif T == 'DM':
                    r = cs.evalf(cs.MX(f(cs.DM(v)))).full()
                else:
                    S = cs.SX if T == 'SX' else cs.MX
                    y = S.sym('y', rows, cols)
                    g = cs.Function('g', [y], [f(2 * y if T == 'expr' else y)])
                    r = g(v / 2 if T == 'expr' else v).full()
                e = v @ M if M is not None else np.repeat(v, n, axis=1)
                s = np.max(np.abs(e)) / scale + (np.max(size) * 10 if what == 'derivative' else 10)
                ctx.step()
                ctx.state((rows, scale, T, what))
                ctx.expect(r.shape == e.shape and np.max(np.abs(r / scale - e / scale)) <= 1e-10 * n * s, lambda: '%s of %s data: %s instead of %s' % (what, T, r, e))


def run_sizes(scn, ctx):
    t, n, pdq = make(scn)
    N, P = len(t) - 1, len(pdq.collocationPoints)
    for what, cols in (('derivative', P), ('integral', P - 1), ('expandInput', N)):
        f = getattr(pdq, what)
        for rows in (1, 2):
            for c in range(0, cols + 3):
                if c == cols:
                    continue
                ctx.state((what, rows, c))
                must_raise(ctx, lambda: f(cs.DM.ones(rows, c)), '%s of %d columns' % (what, c))
                must_raise(ctx, lambda: f(cs.MX.sym('y', rows, c)), '%s of %d columns' % (what, c))
                must_raise(ctx, lambda: f(np.ones((rows, c))), '%s of %d columns' % (what, c))


def run_order(scn, ctx):
    import itertools
    for m in (2, 3, 4):
        for g in itertools.product((0.0, 1.0, 2.0, -0.5), repeat=m):
            for fam, o in (('chebyshev', 1), ('chebyshev', 4), ('radau', 2)):
                up = all(a < b for a, b in zip(g, g[1:]))
                ctx.state((g, fam))
                if up:
                    ctx.step()
                    ctx.expect(ce.Pdq(list(g), o, fam).numIntervals == m - 1, 'number of intervals')
                else:
                    must_raise(ctx, lambda: ce.Pdq(list(g), o, fam), 'grid %s' % (g,))
    must_raise(ctx, lambda: ce.Pdq([0., 1.], 3, 'lobatto'), 'unknown family')
