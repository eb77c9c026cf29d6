"""C20: the integrated trajectory passes through every state the integrator returns."""
import itertools
import numpy as np
import casadi as cs
import daes as D
from core import sequences
import exact as X
from c19 import make, inputs
import casadi_extras as ce
from casadi_extras.collocation import CollocationScheme

BOUNDS = {
    'quick': 'all 972 size combinations x semi-explicit and implicit, 4 grids, orders and methods each in rotation, and 6 models x 2 forms x 8 grids of 1 to 4 unequal intervals x orders 1 to 5 x legendre, radau; 3 models of up to 5 states, 4 algebraic states, 4 inputs and 5 parameters on 4 further grids (7 and 12 intervals, very unequal lengths): value at every break from both sides, at every collocation point and derivative there, values between from the exact collocation polynomial; polynomial solutions of every degree up to the order (1 to 6) at 7 times per interval; trajectories of a scheme for arbitrary (discontinuous) values; discretization, interval polynomials and derivative of the trajectory; every ordered pair A, B of 24 similar schemes used one after the other as A, B, A in one process',
    'thorough': '12 settings per size combination, orders up to 7',
}


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for k, s in enumerate(D.specs()):
        for kind in ('semi', 'impl'):
            for r in range(12 if t else 4):
                out.append({'do': 'solve', 'spec': s, 'kind': kind, 'grid': (k + 3 * r) % D.NGRID, 'order': 1 + (k // 3 + r + r // 3) % 4, 'method': ('legendre', 'radau')[(k // 7 + r) % 2]})
    for s, kind, g, o, m in itertools.product(D.SMALL, ('semi', 'impl'), range(D.NGRID), range(1, 8 if t else 6), ('legendre', 'radau')):
        out.append({'do': 'solve', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': m})
    for s, kind, g, o, m in itertools.product(D.LARGE + D.SMALL, ('semi', 'impl'), D.LONG[:-1], (1, 2, 4, 6) if t else (1, 4), ('legendre', 'radau')):
        out.append({'do': 'solve', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': m})
    for g, o, m in itertools.product(range(len(D.GRIDS) - 1), range(1, 7), ('legendre', 'radau')):
        out.append({'do': 'poly', 'grid': g, 'order': o, 'method': m})
        out.append({'do': 'scheme', 'spec': D.SMALL[3], 'grid': g, 'order': o, 'method': m})
        out.append({'do': 'scheme', 'spec': D.SMALL[0], 'grid': g, 'order': o, 'method': m})
    out += sequences([dict(s, do='solve') for s in D.ALIKE])
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.state(scn)
    ctx.trace()


def check(ctx, traj, t, M, method, x, K, Xc, what, closed):
    """x, K determine the trajectory: start state plus integrated derivative polynomial."""
    A, b, c = D.tableau(M, method)
    L = X.Lagrange(c)
    N, nx = len(t) - 1, x.shape[0]
    ctx.expect([float(v) for v in traj.intervals] == t and traj.numIntervals == N, lambda: '%s: intervals %s' % (what, traj.intervals))
    scale = 1 + np.max(np.abs(x)) + np.max(np.abs(K)) * (t[-1] - t[0])
    d = traj.derivative()

    def near(got, e, w, s=1.0):
        got = np.asarray(got, dtype=float).reshape(-1)
        ctx.step()
        ctx.expect(got.shape == e.shape and np.max(np.abs(got - e)) <= 1e-8 * scale * s, lambda: '%s: %s: %s instead of %s' % (what, w, got, e))
    for i in range(N):
        h = t[i + 1] - t[i]
        near(traj(t[i], 'right'), x[:, i], 'start of interval %d' % i)
        end = x[:, i] + h * (K[:, i * M:(i + 1) * M] @ b)
        near(traj(t[i + 1], 'left'), end, 'end of interval %d' % i)
        if closed:
            near(traj(t[i + 1], 'left'), x[:, i + 1], 'end of interval %d' % i)
            near(traj(t[i + 1], 'right'), x[:, i + 1], 'end of interval %d' % i)
        for j in range(M):
            k = i * M + j
            q, side = (t[i + 1], 'left') if c[j] > 1 - 1e-9 else (t[i] + h * c[j], 'right')
            near(traj(q, side), Xc[:, k], 'collocation point %d of interval %d' % (j, i))
            near(d(q, side), K[:, k], 'derivative at collocation point %d of interval %d' % (j, i), 100.0 / min(h, 1))
        p = traj.poly(i)
        for s in (0.2, 0.55, 0.9):
            w = np.array([float(L.integral(l, X.Fr(s))) for l in range(M)])
            e = x[:, i] + h * (K[:, i * M:(i + 1) * M] @ w)
            near(traj(t[i] + s * h), e, 'inside interval %d' % i)
            near([pk(s * h) for pk in p], e, 'polynomial of interval %d' % i)
    ts, ys = traj.discretize(0.15)
    ctx.expect(np.shape(ys) == (nx, len(ts)) and ts[0] == t[0] and abs(ts[-1] - t[-1]) < 1e-12 * (1 + abs(t[-1])), lambda: '%s: sampling %s' % (what, ts))
    near(ys[:, 0], x[:, 0], 'first sample')
    if closed:
        near(ys[:, -1], x[:, -1], 'last sample')


def run_solve(scn, ctx):
    s = scn['spec']
    t = D.breaks(D.GRIDS[scn['grid']])
    N, M = len(t) - 1, scn['order']
    f = make(scn, t if scn['grid'] % 2 else np.array(t), scn['grid'])
    x0, u, p = inputs(s, N, 3)
    o = f.integrate(x0=x0, z0=cs.DM.zeros(s['z']), u=u, p=p)
    ref = f(x0=x0, z0=cs.DM.zeros(s['z']), u=u, p=p)
    for n in ref:
        if n != 'zf':
            D.close(ctx, o[n], ref[n].full(), 'output %s of integrate()' % n)
    check(ctx, o['x_traj'], t, M, scn['method'], o['x'].full(), o['K'].full(), o['X'].full(), 'trajectory', True)
    ctx.outcome(np.round(o['x'].full(), 6).tolist())


def run_scheme(scn, ctx):
    s = scn['spec']
    t = D.breaks(D.GRIDS[scn['grid']])
    N, M = len(t) - 1, scn['order']
    sch = CollocationScheme(D.model(s, 'semi'), t, M, scn['method'], tdp_fun=D.tdp_fun(s))
    for salt in (0, 77):
        vals = D.values(s, N, M, False, salt)
        x, K = vals[0], vals[1]
        Xc = D.Reference(s, 'semi', t, M, scn['method'], *vals).X
        check(ctx, sch.piecewisePolyX(cs.DM(x), cs.DM(K)), t, M, scn['method'], x, K, Xc, 'trajectory of arbitrary values', False)
        ctx.outcome(Xc.tolist())


def run_poly(scn, ctx):
    t = D.breaks(D.GRIDS[scn['grid']])
    M, N = scn['order'], len(t) - 1
    for d in range(1, M + 1):
        x, z, tt = cs.MX.sym('x', 2), cs.MX.sym('z'), cs.MX.sym('t')
        dae = ce.SemiExplicitDae(x=x, z=z, t=tt, ode=cs.vertcat(z, 1), alg=z - d * tt ** (d - 1))
        o = ce.collocationIntegrator('f', dae, t, M, scn['method']).integrate(x0=[t[0] ** d, 3.0], z0=0, u=cs.DM(0, N), p=cs.DM(0, 1))
        traj = o['x_traj']
        dt = traj.derivative()
        qs = [t[i] + s * (t[i + 1] - t[i]) for i in range(N) for s in (0, 0.1, 0.35, 0.5, 0.77, 0.99, 1)]
        for side in ('left', 'right'):
            e = np.array([[q ** d for q in qs], [3.0 + q - t[0] for q in qs]])
            D.close(ctx, np.asarray(traj(qs, side)), e, 'degree %d' % d, 1e-8)
            e = np.array([[d * q ** (d - 1) for q in qs], [1.0 for q in qs]])
            D.close(ctx, np.asarray(dt(qs, side)), e, 'derivative, degree %d' % d, 1e-6)
        ctx.outcome((d, t))
