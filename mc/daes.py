"""A family of DAE models, each as casadi model and as plain Python functions, and the
collocation equations written out point by point."""
import itertools
import numpy as np
import casadi as cs
import exact as X
from exact import Fr
import casadi_extras as ce

GROUPS = ['x', 'z', 'u', 'p', 't', 'tdp']


def specs(full=True):
    """All combinations of the sizes of the variable groups."""
    for nx, nz, nu, np_, t, tdp, nq in itertools.product((1, 2), (0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 1), (0, 1, 2), (0, 1, 2)):
        yield {'x': nx, 'z': nz, 'u': nu, 'p': np_, 't': t, 'tdp': tdp, 'q': nq}


SMALL = [
    {'x': 1, 'z': 0, 'u': 0, 'p': 0, 't': 0, 'tdp': 0, 'q': 0},
    {'x': 2, 'z': 0, 'u': 1, 'p': 0, 't': 0, 'tdp': 0, 'q': 1},
    {'x': 1, 'z': 1, 'u': 0, 'p': 1, 't': 1, 'tdp': 0, 'q': 1},
    {'x': 2, 'z': 1, 'u': 2, 'p': 2, 't': 1, 'tdp': 2, 'q': 2},
    {'x': 1, 'z': 2, 'u': 1, 'p': 1, 't': 0, 'tdp': 1, 'q': 2},
    {'x': 3, 'z': 2, 'u': 2, 'p': 3, 't': 1, 'tdp': 1, 'q': 1},
    {'x': 2, 'z': 1, 'u': 1, 'p': 1, 't': 1, 'tdp': 1, 'q': 2, 'sp': 1},
]


def mix(k, groups):
    """Bilinear expression in which every scalar of every group has its own weight."""
    acc = 0.5 * (k + 1)
    prev = 1.0
    n = 0
    for gi, g in enumerate(groups):
        for v in g:
            n += 1
            acc = acc + (0.3 + 0.17 * k + 0.11 * gi + 0.07 * n) * v + 0.013 * (n + k) * v * prev
            prev = v
    return acc


def rhs(spec, kind, groups, xdot=None):
    """(ode, alg, quad) or (dae, quad) as lists; groups in the order of GROUPS.
    With 'sp' the first quadrature and the last ode are zero, with 2 also the last alg."""
    x, z = groups[0], groups[1]
    quad = [mix(20 + k, groups) for k in range(spec['q'])]
    sp = spec.get('sp', 0)
    if sp:
        quad[:1] = [0.0] * len(quad[:1])
    if kind == 'semi':
        ode = [0.05 * mix(k, groups) - 0.5 * x[k] for k in range(spec['x'])]
        alg = [4.0 * z[k] + 0.02 * mix(10 + k, groups) for k in range(spec['z'])]
        if sp:
            ode[-1] = 0.0
        if sp == 2 and alg:
            alg[-1] = 0.0
        return ode, alg, quad
    dae = [2.0 * xdot[k] + 0.3 * x[k] - 0.04 * mix(k, [xdot] + list(groups)) for k in range(spec['x'])]
    dae += [3.0 * z[k] + 0.02 * mix(10 + k, [xdot] + list(groups)) for k in range(spec['z'])]
    return dae, quad


def column(l):
    """Zeros are structural."""
    return cs.vertcat(*[cs.MX(1, 1) if isinstance(e, float) and e == 0.0 else e for e in l])


def model(spec, kind, structured=False):
    """The casadi model."""
    kw, groups = {}, []
    for g in GROUPS:
        n = spec[g]
        if structured and n > 1:
            v = ce.struct_symMX(['%s%d' % (g, k) for k in range(n - 2)] + [ce.entry(g + 'v', shape=2)])
            m = v.cat
        else:
            v = m = cs.MX.sym(g, n)
        if n or (g in ('x',)):
            kw[g] = v
        groups.append([m[k] for k in range(n)])
    if kind == 'semi':
        ode, alg, quad = rhs(spec, kind, groups)
        kw['ode'] = column(ode)
        if spec['z']:
            kw['alg'] = column(alg)
        if spec['q']:
            kw['quad'] = column(quad)
        return ce.SemiExplicitDae(**kw)
    xdot = cs.MX.sym('xdot', spec['x'])
    dae, quad = rhs(spec, kind, groups, [xdot[k] for k in range(spec['x'])])
    kw['dae'] = column(dae)
    kw['xdot'] = xdot
    if spec['q']:
        kw['quad'] = column(quad)
    return ce.ImplicitDae(**kw)


def tdp_value(spec, t):
    return [0.3 + 0.7 * (k + 1) * t - 0.2 * t * t for k in range(spec['tdp'])]


def tdp_fun(spec, form='dm'):
    if not spec['tdp']:
        return None
    if form == 'np':
        return lambda t: np.array(tdp_value(spec, float(t)))
    return lambda t: cs.DM(tdp_value(spec, float(t)))


TAB = {}


def tableau(order, method):
    """Exact tableau as floats."""
    if (order, method) not in TAB:
        c = cs.collocation_points(order, method)
        L = X.Lagrange(c)
        A = np.array([[float(L.integral(j, Fr(ci))) for j in range(order)] for ci in c])
        b = np.array([float(L.integral(j, Fr(1))) for j in range(order)])
        TAB[order, method] = (A, b, np.array(c))
    return TAB[order, method]


class Reference(object):
    """All quantities of the collocation scheme at given values, written out."""

    def __init__(self, spec, kind, t, order, method, x, K, Z, u, P):
        """x (nx, N+1), K (nx, NM), Z (nz, NM), u (nu, N), P (np, 1 or NM)."""
        A, b, c = tableau(order, method)
        N, M = len(t) - 1, order
        self.tc, self.X, self.U, self.eq, self.quad = [], [], [], [], []
        cont, q, Q = [], [np.zeros(spec['q'])], []
        for i in range(N):
            h = t[i + 1] - t[i]
            for j in range(M):
                k = i * M + j
                tau = t[i] + h * c[j]
                X = [x[r, i] + h * sum(A[j, l] * K[r, i * M + l] for l in range(M)) for r in range(spec['x'])]
                par = P[:, k] if P.shape[1] > 1 else P[:, 0]
                groups = [X, list(Z[:, k]), list(u[:, i]), list(par), [tau] if spec['t'] else [], tdp_value(spec, tau)]
                if kind == 'semi':
                    ode, alg, quad = rhs(spec, kind, groups)
                    res = [K[r, k] - ode[r] for r in range(spec['x'])] + alg
                else:
                    res, quad = rhs(spec, kind, groups, list(K[:, k]))
                self.tc.append(tau)
                self.X.append(X)
                self.U.append(list(u[:, i]))
                self.eq.append(res)
                self.quad.append(quad)
            cont.append([x[r, i] + h * sum(b[l] * K[r, i * M + l] for l in range(M)) - x[r, i + 1] for r in range(spec['x'])])
            qi = np.array(self.quad[i * M:(i + 1) * M]).reshape(M, spec['q'])
            for j in range(M):
                Q.append(q[-1] + h * (A[j] @ qi))
            q.append(q[-1] + h * (b @ qi))
        self.tc = np.array(self.tc)
        self.X = np.array(self.X).T
        self.U = np.array(self.U).reshape(N * M, spec['u']).T
        self.eq = np.array(self.eq).T
        self.cont = np.array(cont).T
        self.param = np.diff(P, axis=1) if P.shape[1] > 1 else np.zeros((P.shape[0], 0))
        self.quad = np.array(self.quad).reshape(N * M, spec['q']).T
        self.q = np.array(q).T
        self.Q = np.array(Q).T


def values(spec, N, M, repeat, salt=0):
    """Pairwise distinct values for all variables of the scheme."""
    k = [salt]

    def m(r, c):
        out = np.zeros((r, c))
        for j in range(c):
            for i in range(r):
                k[0] += 1
                out[i, j] = ((k[0] * 0.6180339887498949) % 1.0) * 4 - 2
        return out
    return m(spec['x'], N + 1), m(spec['x'], N * M), m(spec['z'], N * M), m(spec['u'], N), m(spec['p'], N * M if repeat else 1)


def breaks(g):
    return [float(v) for v in np.cumsum([g[0]] + list(g[1]))]


GRIDS = [(0.0, [1.0]), (0.0, [0.5, 0.5]), (-1.0, [0.5]), (0.25, [0.25, 1.0]), (2.0, [1.0, 0.25]), (0.0, [0.3, 1.0, 0.5]), (1.0, [1.0, 0.5, 0.3]), (0.5, [0.25, 1.0, 0.3, 0.5])]
NGRID = len(GRIDS)
# longer grids, very unequal ones, far from the origin
LONG = range(NGRID, NGRID + 5)
GRIDS += [(-0.5, [0.2, 0.1, 0.3, 0.25, 0.15, 0.05, 0.4]), (0.0, [0.1] * 12), (1.0, [0.3, 0.05, 0.1, 0.2, 0.15, 0.02, 0.1, 0.3, 0.25, 0.1, 0.07, 0.11]), (0.0, [1 / 700, 1.0, 1 / 70]), (50.0, [0.5, 0.25])]

LARGE = [
    {'x': 5, 'z': 3, 'u': 4, 'p': 5, 't': 1, 'tdp': 3, 'q': 4},
    {'x': 4, 'z': 0, 'u': 3, 'p': 0, 't': 0, 'tdp': 0, 'q': 3},
    {'x': 1, 'z': 4, 'u': 0, 'p': 3, 't': 1, 'tdp': 0, 'q': 0},
]

# for sequences of schemes alike in model, number of intervals, order or method
ALIKE = [{'spec': SMALL[i], 'kind': k, 'grid': g, 'order': o, 'method': m} for i, k in ((1, 'semi'), (3, 'semi'), (3, 'impl')) for g in (1, 3) for o in (1, 2) for m in ('legendre', 'radau')]


def close(ctx, got, e, what, tol=1e-9):
    got = np.asarray(got if isinstance(got, np.ndarray) else cs.DM(got).full())
    ctx.step()
    ctx.expect(got.shape == e.shape, lambda: '%s: shape %s instead of %s' % (what, got.shape, e.shape))
    if e.size:
        bad = np.abs(got - e) > tol * (1 + np.abs(e))
        bad |= np.isnan(got)
        ctx.expect(not bad.any(), lambda: '%s: %r instead of %r at %s' % (what, got[tuple(np.argwhere(bad)[0])], e[tuple(np.argwhere(bad)[0])], tuple(np.argwhere(bad)[0])))
