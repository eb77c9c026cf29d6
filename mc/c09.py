"""C09: Lagrange basis interpolation is exact for polynomials and nodal values."""
import itertools
import numpy as np
import casadi as cs
import exact as X
from core import sequences
from c01 import must_raise
from casadi_extras import collocation as cc
from casadi_extras.collocation import polynomial as P

BOUNDS = {
    'quick': 'node sets: every ordered selection of 1 to 4 of 7 points, 5 to 7 of 7 points in all rotations and reversed; node families legendre, radau (order 1 to 9), chebyshev (order 0 to 30), equidistant (2 to 12) on [0, 1] and mapped to 5 other intervals, ascending and descending; 1 to 32 whole numbers in steps of 1 and 7; chebyshev of order 48 on an interval of length 1e-6; nodes given as array, list, tuple, integers, scalar; queries: every node, 3 distances on both sides of every node, between, outside near and far, whole numbers; one by one and as vectors in 4 orders; data: unit samples (a basis of the data space), monomials and general matrices of 1 to 3 rows, of moderate, very large and very small values; every ordered pair A, B of 13 similar node sets used one after the other as A, B, A in one process',
    'thorough': 'every ordered selection of 1 to 5 of 8 points, 6 and 7 in all rotations; families up to order 40',
}
ASSUMPTIONS = ['at least one query point per call', 'queries where the Lebesgue function exceeds 1e7 (far extrapolation with many nodes) are left out', 'the monomial interpolator is compared for up to 9 nodes']

MAPS = [(0.0, 1.0), (-1.0, 2.0), (100.0, 0.5), (-3.0, 1e-3), (0.0, 1e3), (0.0, 1e-9)]
# alike in number, ends, sum or nodes
ALIKE = [[0, 1], [1, 0], [0, 2], [1, 2], [0, .5, 1], [0, .25, 1], [1, .5, 0], [0, 1, .5], [0, .5, 2], [0, .25, .75, 1], [0, .25, .5, 1]]


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    pts = X.GRID + [0.75] if t else X.GRID
    for s in X.node_sets([1, 2, 3, 4, 5, 6, 7], pts, 5 if t else 4):
        out.append({'nodes': s})
    for s in X.node_sets([1, 2, 3], [-2, 0, 1, 3], 3):
        for form in ('int', 'list', 'tuple', 'intlist'):
            out.append({'nodes': s, 'form': form})
    # whole numbers, whose products exceed the integers
    for n, step in itertools.product(range(4, 33), (1, 7)):
        for k, form in enumerate(('int', 'intlist')):
            out.append({'nodes': [step * (i - 3) for i in range(n)][::1 - 2 * k], 'form': form})
    for fam, orders in (('legendre', range(1, 10)), ('radau', range(1, 10)), ('chebyshev', range(0, 41 if t else 31)), ('equi', range(1, 12))):
        for o in orders:
            for m in MAPS:
                for rev in (False, True):
                    out.append({'family': fam, 'order': o, 'map': list(m), 'rev': rev})
    out.append({'family': 'chebyshev', 'order': 48, 'map': [0.0, 1e-6], 'rev': False})
    out.append({'do': 'reject'})
    out += sequences([{'nodes': s} for s in ALIKE] + [{'nodes': [0, 1], 'form': f} for f in ('int', 'list')])
    return out


def nodes_of(scn):
    if 'nodes' in scn:
        tau = scn['nodes']
        f = scn.get('form')
        return {'int': lambda: np.array(tau, dtype=int), 'list': lambda: [float(v) for v in tau], 'tuple': lambda: tuple(float(v) for v in tau),
                'intlist': lambda: [int(v) for v in tau], None: lambda: np.array(tau, dtype=float)}[f]()
    if scn['family'] == 'equi':
        tau = np.arange(scn['order'] + 1) / scn['order']
    elif scn['family'] == 'chebyshev':
        n = scn['order']
        tau = np.sin(np.pi * np.arange(n + 1) / (2 * n)) ** 2 if n else np.array([0.])
    else:
        tau = np.append(0, cs.collocation_points(scn['order'], scn['family']))
    t0, h = scn['map']
    tau = t0 + h * tau
    return tau[::-1].copy() if scn['rev'] else tau


def tol(n, lam):
    return 1e-11 * n * (1 + lam)


def run(scn, ctx):
    if scn.get('do') == 'reject':
        return run_reject(scn, ctx)
    tau = nodes_of(scn)
    given = list(map(float, tau))
    b = P.PolynomialBasis(tau)
    n = len(given)
    ctx.state(given)
    ctx.step()
    ctx.expect(b.numPoints == n and b.order == n - 1 and list(map(float, b.tau)) == given and list(map(float, tau)) == given,
               lambda: 'numPoints %s, order %s, nodes %s' % (b.numPoints, b.order, b.tau))
    L = X.Lagrange(given)
    qs = X.queries(given)
    # distances from a node below the spacing of floating-point numbers are not queries of their own
    qs = list(dict.fromkeys(qs))
    rows = [[float(v) for v in L.row(q)] for q in qs]
    lam = [sum(map(abs, r)) for r in rows]
    # far extrapolation with many nodes is meaningless in floating point
    keep = [k for k in range(len(qs)) if lam[k] < 1e7]
    qs, rows, lam = ([v[k] for k in keep] for v in (qs, rows, lam))

    # one by one, scalars and one-element vectors
    for k, q in enumerate(qs):
        for arg in (q, [q]) if k % 3 == 0 else (q,):
            r = b.interpolationMatrix(arg)
            ctx.step()
            ctx.expect(np.shape(r) == (1, n), lambda: 'interpolation matrix of shape %s at %r' % (np.shape(r), arg))
            if q in given:
                ctx.expect(list(r[0]) == [float(v == q) for v in given], lambda: 'at node %r: %s' % (q, r))
            else:
                close(ctx, r[0], rows[k], tol(n, lam[k]) * max(1.0, 1e-3 * max(map(abs, rows[k]))), 'at %r' % q)
        ctx.state(q)
    # vectors in several orders
    ks = list(range(len(qs)))
    for order in (ks, ks[::-1], ks[::2] + ks[1::2], [0, 0] + ks[-3:] + [0]):
        r = b.interpolationMatrix(np.array([qs[k] for k in order]))
        ctx.step()
        ctx.expect(np.shape(r) == (len(order), n), 'interpolation matrix of shape %s for %d points' % (np.shape(r), len(order)))
        for i, k in enumerate(order):
            close(ctx, r[i], rows[k], tol(n, lam[k]) * max(1.0, 1e-3 * max(map(abs, rows[k]))), 'at %r (place %d of a vector)' % (qs[k], i))
    # whole numbers as queries
    whole = [int(v) for v in range(int(np.floor(min(given))) - 1, int(np.ceil(max(given))) + 2)][:12]
    exact = {v: L.row(v) for v in whole}
    whole = [v for v in whole if sum(map(abs, exact[v])) < 10 ** 7]
    exact = {v: [float(w) for w in exact[v]] for v in whole}
    for arg in whole + [np.int64(v) for v in whole] + ([whole, np.array(whole), np.array(whole[::-1])] if whole else []):
        r = b.interpolationMatrix(arg)
        ctx.step()
        for i, q in enumerate(np.atleast_1d(arg)):
            e = exact[int(q)]
            close(ctx, r[i], e, tol(n, sum(map(abs, e))) * max(1.0, 1e-3 * max(map(abs, e))), 'at the whole number %d' % q)
    # matrices of samples through the barycentric interpolator
    bi = P.barycentricInterpolator(tau if isinstance(tau, np.ndarray) else np.array(given))
    u = np.array([[(3 * i + 2 * j * j) % 7 - 3.25 + j for j in range(n)] for i in range(3)])
    for data in (u, u[:1], u[0], np.eye(n)):
        r = bi(data, np.array(qs))
        ctx.step()
        d = np.atleast_2d(data)
        r2 = np.atleast_2d(r)
        ctx.expect(r2.shape == (d.shape[0], len(qs)), lambda: 'barycentric interpolator returns shape %s' % (r2.shape,))
        for i in range(d.shape[0]):
            for k in range(len(qs)):
                e = sum(a * v for a, v in zip(d[i], rows[k]))
                t = tol(n, lam[k]) * (1 + np.max(np.abs(d[i]))) * (1 + lam[k])
                ctx.expect(abs(r2[i, k] - e) <= t, lambda: 'barycentric interpolator of %s at %r: %r instead of %r' % (d[i], qs[k], r2[i, k], e))
    base = bi(u, np.array(qs))
    for f in (2.0 ** 60, 2.0 ** -60):
        r = bi(f * u, np.array(qs))
        ctx.step()
        for k in range(len(qs)):
            ctx.expect(np.max(np.abs(r[:, k] / f - base[:, k])) <= tol(n, lam[k]) * (1 + np.max(np.abs(u))) * (1 + lam[k]),
                       lambda: 'barycentric interpolator at %r of data scaled by %r: %s instead of %s' % (qs[k], f, r[:, k], f * base[:, k]))
    one = bi(u, qs[-1])
    ctx.expect(np.shape(one) == (3, 1), lambda: 'barycentric interpolator at one point returns shape %s' % (np.shape(one),))
    # basis polynomials and their compositions
    if n <= 13:
        ctx.expect(len(b.poly) == n, 'number of basis polynomials')
        polys = [(p, np.eye(n)[j], 'basis polynomial %d' % j) for j, p in enumerate(b.poly)]
        for data in (u, u[1:2], np.eye(n), np.zeros((1, n)), np.ones((1, n)), 2.0 ** 60 * u[:1], 2.0 ** -60 * u[:1]):
            got = b.compose(data)
            ctx.step()
            ctx.expect(len(got) == len(data), 'number of composed polynomials: %d' % len(got))
            polys += [(p, data[i], 'composition %s' % (data[i],)) for i, p in enumerate(got)]
        for p, d, w in polys:
            for k, q in enumerate(qs):
                e = sum(a * v for a, v in zip(d, rows[k]))
                size = sum(abs(a) * L.size(j, q) for j, a in enumerate(d)) + 1e-300
                ctx.expect(abs(p(q) - e) <= 1e-13 * n * n * size, lambda: '%s at %r: %r instead of %r' % (w, q, p(q), e))
            ctx.step()
    # monomial interpolator
    if n <= 9:
        V = np.array(given) ** np.arange(n)[:, None]
        cond = np.linalg.cond(V)
        if cond < 1e11:
            mi = P.polynomialInterpolator(np.array(given))
            for data in (u, u[0], np.eye(n)):
                d = np.atleast_2d(data)
                r = np.atleast_2d(mi(data, np.array(qs)))
                ctx.step()
                ctx.expect(r.shape == (d.shape[0], len(qs)), lambda: 'monomial interpolator returns shape %s' % (r.shape,))
                for i in range(d.shape[0]):
                    for k in range(len(qs)):
                        e = sum(a * v for a, v in zip(d[i], rows[k]))
                        t = 1e-14 * n * n * cond * (1 + lam[k]) * (1 + np.max(np.abs(d[i])))
                        ctx.expect(abs(r[i, k] - e) <= t, lambda: 'monomial interpolator of %s at %r: %r instead of %r' % (d[i], qs[k], r[i, k], e))
    ctx.outcome(given)
    ctx.trace()


def close(ctx, got, exp, t, w):
    for g, e in zip(got, exp):
        ctx.expect(abs(g - e) <= t, lambda: '%s: %s instead of %s' % (w, list(got), exp))


def run_reject(scn, ctx):
    for a in ([], np.zeros((2, 2)), np.zeros((1, 0))):
        must_raise(ctx, lambda: P.PolynomialBasis(a), 'nodes %r' % (a,))
    b = P.PolynomialBasis([0., 1.])
    must_raise(ctx, lambda: b.interpolationMatrix(np.zeros((2, 2))), 'matrix of query points')
    must_raise(ctx, lambda: P.polynomialInterpolator(np.zeros((2, 2))), 'matrix of nodes')
    ctx.state('reject')
    ctx.trace()
