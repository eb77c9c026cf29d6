"""C10: differentiation matrices and collocation grids are exact."""
import itertools
import numpy as np
import casadi as cs
import exact as X
from c01 import must_raise
from core import sequences
from c09 import nodes_of, MAPS, ALIKE
from casadi_extras.collocation import polynomial as P
import casadi_extras as ce

BOUNDS = {
    'quick': 'differentiation matrix, column by column (unit samples span the data space): every ordered selection of 1 to 4 of 7 points, 5 to 7 of 7 points in all rotations and reversed; node families legendre, radau (order 1 to 9), chebyshev (order 0 to 40, 50, 64, 100), equidistant (order 1 to 30) on [0, 1] and mapped to 4 other intervals, ascending and descending; 4 to 40 whole numbers in steps of 1 and 7; grids: legendre, radau of order 1 to 9, chebyshev of order 0 to 64, unknown families and orders; Chebyshev helper of order 1 to 40 on 13 intervals, reversed ones included; every ordered pair A, B of similar node sets, grids and intervals used one after the other as A, B, A in one process',
    'thorough': 'every ordered selection of 1 to 5 of 8 points',
}


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    pts = X.GRID + [0.75] if t else X.GRID
    for s in X.node_sets([1, 2, 3, 4, 5, 6, 7], pts, 5 if t else 4):
        out.append({'do': 'D', 'nodes': s})
    for s in X.node_sets([1, 2, 3], [-2, 0, 1, 3], 3):
        for form in ('int', 'list', 'tuple', 'intlist'):
            out.append({'do': 'D', 'nodes': s, 'form': form})
    for n, step in itertools.product(range(4, 41), (1, 7)):
        for k, form in enumerate(('int', 'intlist')):
            out.append({'do': 'D', 'nodes': [step * (i - 3) for i in range(n)][::1 - 2 * k], 'form': form})
    for fam, orders in (('legendre', range(1, 10)), ('radau', range(1, 10)), ('chebyshev', list(range(0, 41)) + [50, 64, 100]), ('equi', range(1, 31))):
        for o in orders:
            for m in MAPS:
                for rev in (False, True):
                    out.append({'do': 'D', 'family': fam, 'order': o, 'map': list(m), 'rev': rev})
    for fam, orders in (('legendre', range(1, 10)), ('radau', range(1, 10)), ('chebyshev', range(0, 65))):
        for o in orders:
            out.append({'do': 'grid', 'family': fam, 'order': o})
    for n in range(1, 41):
        for iv in ((0, 1), (1, 0), (-1, 1), (1, -1), (2, 5), (5, 2), (-3.5, -3.25), (100, 1100), (0, 1e-3), (4, 5), (0, 1e-9), (0, 3), (-1, 0)):
            out.append({'do': 'cheb', 'order': n, 'interval': list(iv)})
    out.append({'do': 'reject'})
    out += sequences([{'do': 'D', 'nodes': s} for s in ALIKE] + [{'do': 'grid', 'family': f, 'order': n} for f in ('legendre', 'radau', 'chebyshev') for n in (1, 2, 3)]
                     + [{'do': 'cheb', 'order': n, 'interval': iv} for n in (2, 3) for iv in ([0, 1], [1, 0], [1, 2], [4, 5], [0, 2], [-1, 1], [2, 0])])
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.trace()


def compare_D(ctx, got, tau, what, scale=1.0):
    """The error may not exceed rounding relative to the row."""
    n = len(tau)
    E = X.Lagrange(tau).D()
    ctx.expect(np.shape(got) == (n, n), lambda: '%s of shape %s' % (what, np.shape(got)))
    for j in range(n):
        size = sum(abs(float(v)) for v in E[j])
        for k in range(n):
            ctx.step()
            e = float(E[j][k])
            ctx.expect(abs(got[j, k] - e) <= scale * 1e-12 * n * (size + 1e-300),
                       lambda: '%s at nodes %s: element (%d, %d) is %r instead of %r' % (what, list(tau), j, k, got[j, k], e))


def run_D(scn, ctx):
    tau = nodes_of(scn)
    compare_D(ctx, P.PolynomialBasis(tau).D, list(map(float, tau)), 'differentiation matrix')
    ctx.state(list(map(float, tau)))
    ctx.outcome(list(map(float, tau)))


def reference_nodes(family, n):
    if family == 'chebyshev':
        return np.sin(np.pi * np.arange(n + 1) / (2 * n)) ** 2 if n else np.array([0.])
    if family == 'legendre':
        x = np.polynomial.legendre.leggauss(n)[0]
    else:
        c = np.zeros(n + 1)
        c[n], c[n - 1] = 1, -1          # Radau nodes including the right end
        x = np.sort(np.polynomial.legendre.legroots(c).real)
    return np.append(0, (np.sort(x) + 1) / 2)


def run_grid(scn, ctx):
    n, fam = scn['order'], scn['family']
    t = P.collocationPoints(n, fam)
    ctx.step()
    ctx.state((fam, n))
    ctx.expect(np.shape(t) == (n + 1,), lambda: 'grid of shape %s' % (np.shape(t),))
    ctx.expect(t[0] == 0 and np.all(np.diff(t) > 0) and np.all(t >= 0) and np.all(t <= 1), lambda: 'grid %s' % t)
    e = reference_nodes(fam, n)
    ctx.expect(np.max(np.abs(t - e)) < 1e-13, lambda: 'grid %s instead of %s' % (t, e))
    ctx.outcome(list(t))


def run_cheb(scn, ctx):
    n, (t0, tf) = scn['order'], scn['interval']
    for f in (P.cheb, ce.cheb):
        D, t = f(n, t0, tf)
        ctx.expect(np.shape(t) == (n + 1,), lambda: 'grid of shape %s' % (np.shape(t),))
        h = tf - t0
        tiny = 1e-14 * (abs(t0) + abs(tf))
        ctx.expect(abs(t[0] - t0) <= tiny and abs(t[-1] - tf) <= tiny, lambda: 'grid from %r to %r' % (t[0], t[-1]))
        e = t0 + h * reference_nodes('chebyshev', n)
        ctx.expect(np.max(np.abs(t - e)) <= 1e-13 * (abs(t0) + abs(tf)), lambda: 'grid %s instead of %s' % (t, e))
        # the matrix belongs to the exact nodes on [0, 1], scaled
        E = X.Lagrange(P.collocationPoints(n, 'chebyshev')).D()
        ctx.expect(np.shape(D) == (n + 1, n + 1), lambda: 'matrix of shape %s' % (np.shape(D),))
        for j in range(n + 1):
            size = sum(abs(float(v)) for v in E[j]) / abs(h)
            for k in range(n + 1):
                ctx.step()
                ctx.expect(abs(D[j, k] - float(E[j][k]) / h) <= 1e-12 * (n + 1) * size,
                           lambda: 'element (%d, %d) is %r instead of %r' % (j, k, D[j, k], float(E[j][k]) / h))
    ctx.state((n, t0, tf))


def run_reject(scn, ctx):
    for n in (1, 3):
        for fam in ('lobatto', '', 'Legendre', None, 'cheb'):
            must_raise(ctx, lambda: P.collocationPoints(n, fam), 'family %r' % (fam,))
    for fam in ('legendre', 'radau'):
        for n in (-1, 0):
            must_raise(ctx, lambda: P.collocationPoints(n, fam), 'order %d of %s' % (n, fam))
    ctx.state('reject')
