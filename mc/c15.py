"""C15: trajectory interpolation honours nodes, intervals and the continuity side."""
import itertools
import numpy as np
import casadi as cs
import exact as X
import pw
from core import sequences
from exact import Fr
from c01 import must_raise
from c14 import make
import casadi_extras as ce

BOUNDS = {
    'quick': 'grids of 1 to 4 unequal intervals from 3 starts; 5, 6, 11 and 16 intervals for 5 families, lengths 1e-5 to 1e3; chebyshev of order 1 to 6, radau of order 1 to 4; continuity both, left, right and default; unit data (they span all data) and matrices of 1 to 3 rows, also scaled by 2**60 and 2**-60; queries: every break, node, both sides of every break, inside, outside near and far, whole numbers; one by one and as vectors in 4 orders; system trajectories with 0 to 3 components each; all wrong column numbers in [0, n + 2] for each of interpolator, state, algebraic state and input; 7 unknown continuity names; every ordered pair A, B of similar grids used one after the other as A, B, A in one process',
    'thorough': 'chebyshev up to order 10, radau up to order 8',
}
ASSUMPTIONS = ['node families with both interval ends (chebyshev, radau)']


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    fams = [('chebyshev', o) for o in range(1, 11 if t else 7)] + [('radau', o) for o in range(1, 9 if t else 5)]
    k = 0
    for n in (1, 2, 3, 4):
        for ls in pw.grids(n):
            for st in pw.STARTS:
                for fam, o in fams:
                    k += 1
                    g = {'lengths': ls, 'start': st, 'family': fam, 'order': o, 'form': ('list', 'array', 'tuple')[k % 3]}
                    out.append(dict(g, do='interp'))
                    if o <= 4:
                        out.append(dict(g, do='traj'))
    for ls, st, (fam, o), do in itertools.product(pw.LONG + pw.SHORT, pw.STARTS, [('chebyshev', 1), ('chebyshev', 2), ('chebyshev', 4), ('radau', 1), ('radau', 3)], ('interp', 'traj')):
        out.append({'do': do, 'lengths': ls, 'start': st, 'family': fam, 'order': o, 'form': 'array'})
    for iv in ([0, 1], [0, 1, 3], [-2, 0, 1, 5]):
        for fam, o in fams:
            g = {'breaks': iv, 'family': fam, 'order': o, 'form': 'int'}
            out += [dict(g, do='interp'), dict(g, do='traj'), dict(g, do='reject')]
    out += sequences([dict(g, do=do, family=f, order=2, form='list') for g in pw.ALIKE for f in ('chebyshev', 'radau') for do in ('interp', 'traj')])
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.trace()


class Ref(object):
    """Which data columns and weights give the value at a time."""

    def __init__(self, t, n, pts, cont):
        self.t, self.n, self.cont = t, n, cont
        N = len(t) - 1
        self.cols = N * n + (cont == 'both')
        self.groups, self.bases = [], []
        for i in range(N):
            ids = list(range(i * n, (i + 1) * n + 1))
            if cont == 'left':
                ids = ids[1:]
            elif cont == 'right':
                ids = ids[:-1]
            self.bases.append(X.Lagrange([pts[k] for k in ids]))
            self.groups.append([k - (cont == 'left') for k in ids])

    def weights(self, q):
        i = pw.piece(self.t, q, 'left' if self.cont == 'left' else 'right')
        w = np.zeros(self.cols)
        w[self.groups[i]] = [float(v) for v in self.bases[i].row(q)]
        lam = np.sum(np.abs(w))
        return w, 1e-11 * (self.n + 1) * (1 + lam) * (1 + 1e-2 * lam)


def times(t, pts):
    return list(dict.fromkeys(pw.query_points(t) + [float(v) for v in pts]))


def run_interp(scn, ctx):
    t, n, pdq = make(scn)
    pts = pdq.collocationPoints
    qs = times(t, pts)
    for cont in ('both', 'left', 'right', None):
        f = pdq.interpolator() if cont is None else pdq.interpolator(cont) if n % 2 else pdq.interpolator(continuity=cont)
        ref = Ref(t, n, pts, cont or 'both')
        ws = [ref.weights(q) for q in qs]
        unit = np.eye(ref.cols)
        for k, q in enumerate(qs):
            for arg in ((q, [q]) if k % 3 == 0 else (q,)):
                r = f(unit, arg)
                ctx.step()
                ctx.expect(np.shape(r) == (ref.cols, 1), lambda: 'shape %s for one time' % (np.shape(r),))
                w, tol = ws[k]
                ctx.expect(np.max(np.abs(r[:, 0] - w)) <= tol, lambda: 'continuity %s at %r: weights %s instead of %s' % (cont, q, r[:, 0], w))
            ctx.state((cont, k))
        ks = list(range(len(qs)))
        data = np.array([[(3 * i + 2 * k * k) % 11 - 4.5 + 0.25 * k for k in range(ref.cols)] for i in range(3)])
        for order in (ks, ks[::-1], sorted(ks, key=lambda k: qs[k]), ks[1::2] + ks[::2] + [0, 0]):
            for d, scale in ((unit, 1), (data, 1), (data[:1], 1), (data[1:], 2.0 ** 60), (data[2:], 2.0 ** -60)):
                r = f(scale * d, np.array([qs[k] for k in order])) / scale
                ctx.step()
                ctx.expect(np.shape(r) == (len(d), len(order)), lambda: 'shape %s for %d times' % (np.shape(r), len(order)))
                for m, k in enumerate(order):
                    w, tol = ws[k]
                    e = d @ w
                    ctx.expect(np.max(np.abs(r[:, m] - e)) <= tol * (1 + np.max(np.abs(d))) * n,
                               lambda: 'continuity %s at %r (place %d of a vector): %s instead of %s' % (cont, qs[k], m, r[:, m], e))
        # whole numbers in every representation
        whole = pw.whole(t)
        for arg in whole + [np.int64(v) for v in whole] + ([whole, np.array(whole), tuple(whole[::-1])] if whole else []):
            r = f(unit, arg)
            ctx.step()
            for m, q in enumerate(np.atleast_1d(arg)):
                w, tol = ref.weights(float(q))
                ctx.expect(np.max(np.abs(r[:, m] - w)) <= tol, lambda: 'continuity %s at the whole number %d: weights %s instead of %s' % (cont, q, r[:, m], w))
        ctx.outcome((cont, t, n))


def run_traj(scn, ctx):
    t, n, pdq = make(scn)
    pts = pdq.collocationPoints
    P = len(pts)
    qs = times(t, pts)
    both, right = Ref(t, n, pts, 'both'), Ref(t, n, pts, 'right')
    for nx, nz, nu in ((1, 1, 1), (2, 1, 3), (1, 3, 2), (3, 0, 1), (1, 2, 0), (P, P - 1, P - 1)):
        if nx == P:
            x, z, u = np.eye(P), 2.0 ** 60 * np.eye(P - 1), 2.0 ** -60 * np.eye(P - 1)
        else:
            x, z, u = (np.array([[100. * s + 7 * i + (k * k) % 5 + 0.5 * k for k in range(c)] for i in range(r)]).reshape(r, c)
                       for s, r, c in ((1, nx, P), (2, nz, P - 1), (3, nu, P - 1)))
        forms = [(x, z, u)]
        if nx == nz == nu == 1:
            forms.append((x[0], z[0], list(u[0])))
        for a in forms:
            s = ce.SystemTrajectory(*a, pdq)
            ctx.step()
            ctx.expect([float(v) for v in s.time] == t, lambda: 'time %s' % (s.time,))
            for f, d, ref, name in ((s.state, x, both, 'state'), (s.algState, z, right, 'algebraic state'), (s.input, u, right, 'input')):
                for v in (np.array(qs), qs[::-1], qs[2]):
                    r = np.asarray(f(v))
                    ctx.step()
                    vs = np.atleast_1d(v)
                    ctx.expect(r.shape == (len(d), len(vs)), lambda: '%s of shape %s' % (name, r.shape))
                    for m, q in enumerate(vs):
                        w, tol = ref.weights(float(q)) if len(d) else (None, 0)
                        if len(d):
                            ctx.expect(np.max(np.abs(r[:, m] - d @ w)) <= tol * 400 * n * (np.max(d) if nx == P else 1), lambda: '%s at %r: %s instead of %s' % (name, q, r[:, m], d @ w))
                ctx.state((nx, nz, nu, name))


def run_reject(scn, ctx):
    t, n, pdq = make(scn)
    P = len(pdq.collocationPoints)
    for name in ('none', '', 'Left', 'BOTH', 'centre', None, 0):
        must_raise(ctx, lambda: pdq.interpolator(name), 'continuity %r' % (name,))
        must_raise(ctx, lambda: pdq.interpolator(continuity=name), 'continuity %r' % (name,))
    for cont in ('both', 'left', 'right'):
        f = pdq.interpolator(cont)
        good = P if cont == 'both' else P - 1
        for c in range(0, P + 3):
            ctx.state((cont, c))
            for q in (t[0], t[-1], [t[0], t[1]]):
                if c == good:
                    f(np.ones((2, c)), q)
                else:
                    must_raise(ctx, lambda: f(np.ones((2, c)), q), 'interpolation (%s) of %d columns' % (cont, c))
    for c in range(0, P + 3):
        for k in range(3):
            a = [np.ones((2, P)), np.ones((2, P - 1)), np.ones((2, P - 1))]
            if a[k].shape[1] == c:
                continue
            a[k] = np.ones((2, c))
            ctx.state((k, c))
            must_raise(ctx, lambda: ce.SystemTrajectory(*a, pdq), 'argument %d with %d columns' % (k, c))
            a[k] = np.ones(c)
            must_raise(ctx, lambda: ce.SystemTrajectory(*a, pdq), 'argument %d with %d elements' % (k, c))
