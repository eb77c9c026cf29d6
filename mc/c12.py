"""C12: piecewise polynomial evaluation uses the right piece at every point."""
import itertools
import numpy as np
import casadi as cs
import pw
from core import sequences
from c01 import must_raise
from casadi_extras.collocation.piecewise_poly import PiecewisePoly
from casadi_extras.collocation import polynomial as P

BOUNDS = {
    'quick': 'grids of 1 to 4 unequal intervals (all selections of 3 lengths for 1 and 2 intervals, all arrangements of 4 lengths above) from 3 starts, given as list, tuple, array or integers; 5, 6, 11 and 16 intervals for 5 of the bases, intervals of length 1e-5 to 1e3; 12 bases of 1 to 6 nodes with and without the interval ends, ordered and unordered; unit coefficients for every interval and node (they span all coefficients), 1 and 2 component and one-dimensional, very large and very small coefficients, numpy and casadi; queries: every break, both sides of it, inside, outside near and far, whole numbers; both continuities and the default; one by one and as vectors in 5 orders; interval and coefficient counts 0 to 4; 8 unknown continuity names; every ordered pair A, B of similar grids used one after the other as A, B, A in one process',
    'thorough': 'grids of up to 5 intervals, vectors in all rotations',
}


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for n in (1, 2, 3, 4) + ((5,) if t else ()):
        for k, ls in enumerate(pw.grids(n) if n < 5 else [[1.0, 0.25, 3.0, 0.1, 0.7], [0.2] * 5]):
            for st in pw.STARTS:
                for b in pw.BASES:
                    out.append({'do': 'eval', 'lengths': ls, 'start': st, 'basis': b, 'form': ('list', 'array', 'tuple')[k % 3], 'all': t})
    for ls, st, b in itertools.product(pw.LONG + pw.SHORT, pw.STARTS, pw.LONG_BASES):
        out.append({'do': 'eval', 'lengths': ls, 'start': st, 'basis': b, 'form': 'array', 'all': t})
    for b in pw.BASES:
        for iv in ([0, 1], [0, 1, 3], [-2, 0, 1, 5], [0, 1, 2, 3, 4]):
            out.append({'do': 'eval', 'breaks': iv, 'basis': b, 'form': 'int', 'all': t})
            out.append({'do': 'data', 'breaks': iv, 'basis': b})
    out += [{'do': 'count'}, {'do': 'names'}]
    out += sequences([dict(g, do='eval', basis=b, form='list', all=False) for g in pw.ALIKE for b in ('ends', 'ends_rev', 'inner2', 'three', 'three_mix')])
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.trace()


def setup(scn):
    t = [float(v) for v in scn['breaks']] if 'breaks' in scn else pw.breaks(scn['start'], scn['lengths'])
    tau = pw.BASES[scn['basis']]
    N, n = len(t) - 1, len(tau)
    units = []
    for i in range(N):
        c = np.zeros((N * n, n))
        c[i * n:(i + 1) * n] = np.eye(n)
        units.append(c)
    given = {'list': lambda: list(t), 'array': lambda: np.array(t), 'tuple': lambda: tuple(t), 'int': lambda: [int(v) for v in t]}[scn.get('form', 'list')]()
    return t, tau, given, units


def expected(E, q, side):
    N, n = len(E.t) - 1, E.n
    i = pw.piece(E.t, q, side)
    e = np.zeros(N * n)
    e[i * n:(i + 1) * n] = E.row(i, q)
    return e, E.tol(i, q), i


def run_eval(scn, ctx):
    t, tau, given, units = setup(scn)
    E = pw.Exact(t, tau)
    p = PiecewisePoly(given, [c.copy() for c in units], P.PolynomialBasis(np.array(tau)))
    ctx.step()
    ctx.expect(list(p.intervals) == t and p.numIntervals == len(t) - 1, lambda: 'intervals %s, number %s' % (p.intervals, p.numIntervals))
    qs = pw.query_points(t)
    exp = {s: [expected(E, q, s) for q in qs] for s in ('left', 'right')}
    rows = len(units[0])

    def judge(r, k, side, what):
        e, tol, i = exp[side][k]
        ctx.expect(np.max(np.abs(np.asarray(r).reshape(-1) - e)) <= tol,
                   lambda: '%s at %r, continuity %s, expected piece %d: %s instead of %s' % (what, qs[k], side, i, r, e))
        ctx.state((side, k, i))
    for k, q in enumerate(qs):
        for side, args in (('right', ()), ('right', ('right',)), ('left', ('left',))):
            for arg in (q, [q]) if k % 2 else (q,):
                r = p(arg, *args)
                ctx.step()
                ctx.expect(np.shape(r) == (rows, 1), lambda: 'shape %s for one point' % (np.shape(r),))
                judge(r, k, side, 'one point')
    ks = list(range(len(qs)))
    orders = [ks, ks[::-1], sorted(ks, key=lambda k: qs[k]), ks[1::2] + ks[::2], [0, 0, len(t) - 1, 0, 1]]
    if scn['all']:
        orders += [ks[k:] + ks[:k] for k in ks]
    for order in orders:
        for side in ('left', 'right'):
            for v in (np.array([qs[k] for k in order]), [qs[k] for k in order]):
                r = p(v, continuity=side)
                ctx.step()
                ctx.expect(np.shape(r) == (rows, len(order)), lambda: 'shape %s for %d points' % (np.shape(r), len(order)))
                for m, k in enumerate(order):
                    judge(r[:, m], k, side, 'place %d of a vector' % m)
    # whole numbers in every representation
    whole = pw.whole(t)
    for side in ('left', 'right'):
        ws = {v: expected(E, float(v), side) for v in whole}
        for arg in whole + [np.int64(v) for v in whole] + ([whole, np.array(whole), tuple(whole[::-1])] if whole else []):
            r = p(arg, side)
            ctx.step()
            for m, q in enumerate(np.atleast_1d(arg)):
                e, tol, i = ws[int(q)]
                ctx.expect(np.max(np.abs(r[:, m] - e)) <= tol, lambda: 'at the whole number %d (%s), expected piece %d: %s instead of %s' % (q, side, i, r[:, m], e))
    ctx.outcome((t, tau))


def run_data(scn, ctx):
    """Other representations of the coefficients."""
    t, tau, given, units = setup(scn)
    E = pw.Exact(t, tau)
    N, n = len(t) - 1, len(tau)
    qs = pw.query_points(t)
    val = lambda c, i, j: 2.5 * c + 1.25 * i - 3 * j + (i * j) % 3 + 0.5
    for rows, form in itertools.product((1, 2, 3), ('numpy', 'DM', 'flat', 'numpy_basis', 'large', 'small')):
        if form == 'flat' and rows > 1:
            continue
        f = {'large': 2.0 ** 60, 'small': 2.0 ** -60}.get(form, 1)
        cf = []
        for i in range(N):
            m = np.array([[f * val(c, i, j) for j in range(n)] for c in range(rows)])
            cf.append(cs.DM(m) if form == 'DM' else m[0] if form == 'flat' else m)
        p = PiecewisePoly(t, tuple(cf) if form == 'numpy_basis' else cf, P.PolynomialBasis(tau))
        for side in ('left', 'right'):
            r = p(qs, side)
            ctx.step()
            ctx.expect(np.shape(r) == (rows, len(qs)), lambda: '%s: shape %s' % (form, np.shape(r)))
            for k, q in enumerate(qs):
                e, tol, i = expected(E, q, side)
                w = e[i * n:(i + 1) * n]
                for c in range(rows):
                    x = sum(f * val(c, i, j) * w[j] for j in range(n))
                    ctx.expect(abs(float(r[c, k]) - x) <= f * tol * 20 * n, lambda: '%s data at %r (%s): %r instead of %r' % (form, q, side, r[c, k], x))
                ctx.state((rows, form, side, k))


def run_count(scn, ctx):
    b = P.PolynomialBasis([0., 1.])
    for ni, nc in itertools.product(range(0, 6), range(0, 6)):
        mk = lambda: PiecewisePoly([float(k) for k in range(ni)], [np.ones((1, 2))] * nc, b)
        ctx.state((ni, nc))
        if ni >= 2 and nc == ni - 1:
            p = mk()
            ctx.step()
            ctx.expect(p.numIntervals == nc, 'number of intervals')
        else:
            must_raise(ctx, mk, '%d breaks with %d coefficient matrices' % (ni, nc))


def run_names(scn, ctx):
    b = P.PolynomialBasis([0., 1.])
    for n in (1, 2):
        p = PiecewisePoly([float(k) for k in range(n + 1)], [np.ones((1, 2))] * n, b)
        for name in ('both', 'none', '', 'Left', 'RIGHT', 'l', None, 0):
            for q in (0.5, [0.5], [0.1, 0.9], 0.0, 1.0):
                must_raise(ctx, lambda: p(q, name), 'continuity %r' % (name,))
                must_raise(ctx, lambda: p(q, continuity=name), 'continuity %r' % (name,))
    ctx.state('names')
