"""C11: Butcher tableaux integrate all polynomials their nodes allow."""
import itertools
import numpy as np
import casadi as cs
import exact as X
from core import sequences
from c09 import ALIKE
from exact import Fr
from c01 import must_raise
from casadi_extras.collocation import butcher as B
from casadi_extras import collocation as cc

BOUNDS = {
    'quick': 'nodes: every ordered selection of 1 to 6 of 8 points (inside and outside [0, 1]), 7 of 8 points in all rotations and reversed; legendre, radau (order 1 to 9, ascending, descending, rotated), chebyshev and equidistant of up to 9 nodes; nodes given as array, list, tuple, integers; order conditions up to the full order of the method; all 9 x 8 x 8 combinations of matrix, weight and node dimensions; every ordered pair A, B of similar node sets used one after the other as A, B, A in one process',
    'thorough': 'as quick',
}


def scenarios(tier):
    out = []
    pts = X.GRID + [0.75]
    for s in X.node_sets([1, 2, 3, 4, 5, 6, 7], pts, 6):
        out.append({'do': 'nodes', 'nodes': s, 'form': 'array'})
    for s in X.node_sets([1, 2, 3], [-2, 0, 1, 3], 3):
        for form in ('int', 'list', 'tuple', 'intlist'):
            out.append({'do': 'nodes', 'nodes': s, 'form': form})
    for n in range(1, 10):
        for fam in ('legendre', 'radau'):
            out.append({'do': 'named', 'order': n, 'method': fam})
            c = cs.collocation_points(n, fam)
            for k in range(n):
                out.append({'do': 'nodes', 'nodes': c[k:] + c[:k], 'form': 'array' if k % 2 else 'list', 'full': 2 * n - (fam == 'radau')})
            out.append({'do': 'nodes', 'nodes': c[::-1], 'form': 'array', 'full': 2 * n - (fam == 'radau')})
        if n > 1:
            for c in ([np.sin(np.pi * k / (2 * n - 2)) ** 2 for k in range(n)], [k / (n - 1) for k in range(n)]):
                out.append({'do': 'nodes', 'nodes': c, 'form': 'array'})
                out.append({'do': 'nodes', 'nodes': c[::-1], 'form': 'array'})
    for k in range(len(AS)):
        out.append({'do': 'shapes', 'A': k})
    out.append({'do': 'reject'})
    out += sequences([{'do': 'nodes', 'nodes': s, 'form': 'array'} for s in ALIKE] + [{'do': 'named', 'order': n, 'method': m} for n in (1, 2, 3) for m in ('legendre', 'radau')])
    return out


AS = [(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 2), (2, 1), (2,), (2, 2, 1)]
BS = [(1,), (2,), (3,), (2, 1), (1, 2), (), (2, 2), (0,)]


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.trace()


def check(ctx, tab, tau, what, full=None):
    n = len(tau)
    L = X.Lagrange(tau)
    ctx.expect(np.shape(tab.A) == (n, n) and np.shape(tab.b) == (n,) and np.shape(tab.c) == (n,),
               lambda: '%s: shapes %s %s %s' % (what, np.shape(tab.A), np.shape(tab.b), np.shape(tab.c)))
    ctx.expect([float(v) for v in tab.c] == list(tau), lambda: '%s: nodes %s' % (what, tab.c))
    for j in range(n):
        for i, x in enumerate(list(tau) + [1.0]):
            ctx.step()
            got = float(tab.b[j] if i == n else tab.A[i, j])
            e = float(L.integral(j, Fr(x)))
            t = 1e-13 * n * n * (abs(x) * L.size(j, x) + abs(e)) + 1e-300
            ctx.expect(abs(got - e) <= t, lambda: '%s: %s is %r instead of %r' % (what, 'b[%d]' % j if i == n else 'A[%d, %d]' % (i, j), got, e))
    if full:
        for k in range(full):
            ctx.step()
            s = sum(float(b) * c ** k for b, c in zip(tab.b, tau))
            ctx.expect(abs(s - 1 / (k + 1)) < 1e-9, lambda: '%s: the weights integrate t^%d to %r' % (what, k, s))
    ctx.outcome([float(v) for v in tab.b])


def run_nodes(scn, ctx):
    c = scn['nodes']
    tau = {'array': lambda: np.array(c, dtype=float), 'list': lambda: [float(v) for v in c], 'tuple': lambda: tuple(map(float, c)),
           'int': lambda: np.array(c, dtype=int), 'intlist': lambda: [int(v) for v in c]}[scn['form']]()
    tab = B.butcherTableuForCollocationPoints(tau)
    ctx.state(c)
    check(ctx, tab, [float(v) for v in c], 'tableau of %s' % (c,), scn.get('full'))
    ctx.expect([float(v) for v in tau] == [float(v) for v in c], 'the given nodes are changed')


def run_named(scn, ctx):
    n, m = scn['order'], scn['method']
    tab = B.butcherTableuForCollocationMethod(n, m)
    tau = cs.collocation_points(n, m)
    ctx.state((n, m))
    check(ctx, tab, tau, '%s of order %d' % (m, n), 2 * n - (m == 'radau'))
    other = B.butcherTableuForCollocationPoints(np.array(tau))
    ctx.expect(np.allclose(tab.A, other.A, 0, 1e-9) and np.allclose(tab.b, other.b, 0, 1e-9), 'named and node-based tableau differ')
    if m == 'radau':
        ctx.expect(np.allclose(np.asarray(tab.A)[-1], tab.b, 0, 1e-9), 'the last row differs from the weights')


def run_shapes(scn, ctx):
    sa = AS[scn['A']]
    A = np.arange(1., 1 + np.prod(sa, dtype=int)).reshape(sa)
    for sb, sc in itertools.product(BS, repeat=2):
        b = np.arange(10., 10 + np.prod(sb, dtype=int)).reshape(sb)
        c = np.arange(20., 20 + np.prod(sc, dtype=int)).reshape(sc)
        ok = len(sa) == 2 and sa[0] == sa[1] and sb == (sa[0],) and sc == (sa[0],)
        ctx.state((sa, sb, sc))
        if not ok:
            must_raise(ctx, lambda: B.ButcherTableau(A, b, c), 'tableau of dimensions %s %s %s' % (sa, sb, sc))
            continue
        t = B.ButcherTableau(A, b, c)
        ctx.step()
        ctx.expect(np.array_equal(t.A, A) and np.array_equal(t.b, b) and np.array_equal(t.c, c), 'tableau %r' % t)
        t = B.ButcherTableau(c=c, b=list(b), A=A)
        ctx.expect(np.array_equal(t.A, A) and np.array_equal(t.b, b) and np.array_equal(t.c, c), 'tableau %r' % t)


def run_reject(scn, ctx):
    for m in ('lobatto', '', 'Radau', None):
        must_raise(ctx, lambda: B.butcherTableuForCollocationMethod(2, m), 'method %r' % (m,))
    for n in (-1, 0):
        must_raise(ctx, lambda: B.butcherTableuForCollocationMethod(n, 'radau'), 'order %d' % n)
    ctx.state('reject')
