"""C19: the collocation integrator solves the DAE for every grid and is composable."""
import itertools
import numpy as np
import casadi as cs
import daes as D
from core import sequences
from exact import Fr
import casadi_extras as ce
from casadi_extras.collocation import CollocationIntegrator

BOUNDS = {
    'quick': 'all 972 size combinations x semi-explicit and implicit, 4 grids, orders and methods each in rotation, and 6 models x 2 forms x 8 grids of 1 to 4 unequal intervals x orders 1 to 4 x legendre, radau; 3 models of up to 5 states, 4 algebraic states, 4 inputs and 5 parameters on 4 further grids (7 and 12 intervals, very unequal lengths): the returned values are put into the collocation equations written out point by point; 2 initial states and 2 initial guesses; polynomial solutions of every degree up to the order for orders 1 to 6; chains: every way to cut each grid into consecutive parts; linear and nonlinear equations with known solution against the order of accuracy on 3 refinements; every ordered pair A, B of 24 similar schemes used one after the other as A, B, A in one process',
    'thorough': '12 settings per size combination, orders up to 6',
}
ASSUMPTIONS = ['the Newton rootfinder of casadi converges for the (mildly nonlinear) model family']


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for k, s in enumerate(D.specs()):
        for kind in ('semi', 'impl'):
            for r in range(12 if t else 4):
                out.append({'do': 'solve', 'spec': s, 'kind': kind, 'grid': (k + 3 * r) % D.NGRID, 'order': 1 + (k // 3 + r + r // 3) % 4, 'method': ('legendre', 'radau')[(k // 7 + r) % 2]})
    for s, kind, g, o, m in itertools.product(D.SMALL, ('semi', 'impl'), range(D.NGRID), range(1, 7 if t else 5), ('legendre', 'radau')):
        out.append({'do': 'solve', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': m, 'structured': (g + o) % 5 == 0})
    for s, kind, g, o, m in itertools.product(D.LARGE + D.SMALL, ('semi', 'impl'), D.LONG[:-1], (1, 2, 4, 6) if t else (1, 4), ('legendre', 'radau')):
        out.append({'do': 'solve', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': m})
    for g, o, m in itertools.product(range(len(D.GRIDS) - 1), range(1, 7), ('legendre', 'radau')):
        out.append({'do': 'poly', 'grid': g, 'order': o, 'method': m})
    for s, kind, g, o, m in itertools.product(D.SMALL, ('semi', 'impl'), [k for k in range(D.NGRID) if len(D.GRIDS[k][1]) > 1], (1, 3), ('legendre', 'radau')):
        out.append({'do': 'chain', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': m})
    for o, m, f in itertools.product(range(1, 6), ('legendre', 'radau'), ('exp', 'logistic', 'osc', 'dae')):
        out.append({'do': 'accuracy', 'order': o, 'method': m, 'fun': f})
    out += sequences([dict(s, do='solve') for s in D.ALIKE])
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.state(scn)
    ctx.trace()


def make(scn, t, k=0):
    s = scn['spec']
    dae = D.model(s, scn['kind'], scn.get('structured', False))
    kw = {'tdp_fun': D.tdp_fun(s, 'np' if k % 2 else 'dm')} if s['tdp'] else {}
    return (CollocationIntegrator if k % 2 else ce.collocationIntegrator)('integrator', dae, t, scn['order'], scn['method'], **kw)


def inputs(s, N, salt):
    x, K, Z, u, P = D.values(s, N, 1, False, salt)
    return x[:, 0], u, P[:, 0]


def check_solution(ctx, scn, t, out, x0, u, p, what, tol=1e-7):
    s, N, M = scn['spec'], len(t) - 1, scn['order']
    x, K, Z = (np.asarray(cs.DM(out[n]).full()) for n in ('x', 'K', 'Z'))
    for n, v, sh in (('x', x, (s['x'], N + 1)), ('K', K, (s['x'], N * M)), ('Z', Z, (s['z'], N * M))):
        ctx.expect(v.shape == sh, lambda: '%s: output %s has shape %s instead of %s' % (what, n, v.shape, sh))
    ref = D.Reference(s, scn['kind'], t, M, scn['method'], x, K, Z, u, p[:, None])
    D.close(ctx, x[:, :1], x0[:, None], '%s: state at the start' % what, tol)
    D.close(ctx, ref.eq, np.zeros_like(ref.eq), '%s: residual of the collocation equations' % what, tol)
    D.close(ctx, ref.cont, np.zeros_like(ref.cont), '%s: continuity defects' % what, tol)
    D.close(ctx, out['xf'], x[:, 1:], '%s: states at the interval ends' % what)
    D.close(ctx, out['X'], ref.X, '%s: states at the collocation points' % what, tol)
    D.close(ctx, out['Q'], ref.Q, '%s: quadratures at the collocation points' % what, tol)
    D.close(ctx, out['qf'], ref.q[:, -1:], '%s: final quadrature' % what, tol)
    D.close(ctx, cs.vec(out['tc']), ref.tc[:, None], '%s: collocation times' % what)
    ctx.outcome(np.round(x, 6).tolist())
    return x


def run_solve(scn, ctx):
    s = scn['spec']
    t = D.breaks(D.GRIDS[scn['grid']])
    N = len(t) - 1
    f = make(scn, t if scn['grid'] % 2 else np.array(t), scn['grid'])
    for salt, z0 in ((0, 0.0), (500, 0.3)):
        x0, u, p = inputs(s, N, salt)
        out = f(x0=x0, z0=cs.DM.ones(s['z']) * z0, u=u, p=p)
        check_solution(ctx, scn, t, out, x0, u, p, 'integration')
    out2 = f.integrate(x0=x0, z0=cs.DM.ones(s['z']) * z0, u=u, p=p)
    check_solution(ctx, scn, t, out2, x0, u, p, 'integrate()')


def run_chain(scn, ctx):
    """Consecutive parts of the grid, each started at the end of the previous one."""
    s = scn['spec']
    t = D.breaks(D.GRIDS[scn['grid']])
    N, M = len(t) - 1, scn['order']
    x0, u, p = inputs(s, N, 7)
    whole = make(scn, t)(x0=x0, z0=cs.DM.zeros(s['z']), u=u, p=p)
    for cuts in itertools.product((0, 1), repeat=N - 1):
        if not any(cuts):
            continue
        idx = [0] + [k + 1 for k in range(N - 1) if cuts[k]] + [N]
        x, q = x0, np.zeros(s['q'])
        for a, b in zip(idx, idx[1:]):
            o = make(scn, t[a:b + 1])(x0=x, z0=cs.DM.zeros(s['z']), u=u[:, a:b], p=p)
            ctx.step()
            for n, lo, hi in (('x', a, b + 1), ('X', a * M, b * M), ('K', a * M, b * M), ('Z', a * M, b * M)):
                D.close(ctx, o[n], whole[n][:, lo:hi].full(), 'part %d to %d of %s: %s' % (a, b, t, n), 1e-7)
            D.close(ctx, cs.vec(o['tc']), cs.vec(whole['tc'])[a * M:b * M].full(), 'times')
            D.close(ctx, o['Q'] + cs.repmat(cs.DM(q), 1, (b - a) * M), whole['Q'][:, a * M:b * M].full(), 'part %d to %d: quadratures' % (a, b), 1e-7)
            x = np.asarray(o['xf'].full())[:, -1]
            q = q + o['qf'].full().reshape(-1)
        D.close(ctx, cs.DM(x), whole['xf'][:, -1].full(), 'state at the end of the chain', 1e-7)
        D.close(ctx, cs.DM(q), whole['qf'].full(), 'quadrature at the end of the chain', 1e-7)


def run_poly(scn, ctx):
    """x1' = z, x2' = d t^(d-1), z = u + p t^k: piecewise polynomial solutions within the order."""
    t = D.breaks(D.GRIDS[scn['grid']])
    M, N = scn['order'], len(t) - 1
    for d in range(1, M + 1):
        x, z, u, p, tt = cs.MX.sym('x', 2), cs.MX.sym('z'), cs.MX.sym('u'), cs.MX.sym('p'), cs.MX.sym('t')
        dae = ce.SemiExplicitDae(x=x, z=z, u=u, p=p, t=tt, ode=cs.vertcat(z, d * tt ** (d - 1)), alg=z - u - p * tt ** (d - 1), quad=cs.vertcat(1, d * tt ** (d - 1)))
        f = ce.collocationIntegrator('f', dae, t, M, scn['method'])
        us = [1.5 - 0.75 * i for i in range(N)]
        x0, pv = [0.25, -1.0], 2.0
        o = f.integrate(x0=x0, z0=0, u=cs.DM(us).T, p=pv)
        ctx.step()

        def x1(i, v):
            r = Fr(x0[0]) + sum(Fr(us[k]) * (Fr(t[k + 1]) - Fr(t[k])) for k in range(i)) + Fr(us[i]) * (Fr(v) - Fr(t[i]))
            return float(r + Fr(pv) * (Fr(v) ** d - Fr(t[0]) ** d) / d)

        def x2(i, v):
            return float(Fr(x0[1]) + Fr(v) ** d - Fr(t[0]) ** d)
        tc = cs.vec(o['tc']).full().reshape(-1)
        X = np.array([[g(k // M, tc[k]) for k in range(N * M)] for g in (x1, x2)])
        xe = np.array([[x0[k]] + [g(i, t[i + 1]) for i in range(N)] for k, g in enumerate((x1, x2))])
        D.close(ctx, o['x'], xe, 'degree %d: states at the interval ends' % d, 1e-8)
        D.close(ctx, o['X'], X, 'degree %d: states at the collocation points' % d, 1e-8)
        Z = np.array([[us[k // M] + pv * tc[k] ** (d - 1) for k in range(N * M)]])
        D.close(ctx, o['Z'], Z, 'degree %d: algebraic states' % d, 1e-8)
        D.close(ctx, o['K'], np.vstack([Z, d * tc ** (d - 1)]), 'degree %d: derivatives' % d, 1e-8)
        D.close(ctx, o['qf'], np.array([[t[-1] - t[0]], [t[-1] ** d - t[0] ** d]]), 'degree %d: quadratures' % d, 1e-8)
        D.close(ctx, o['Q'], np.array([tc - t[0], tc ** d - t[0] ** d]), 'degree %d: quadratures' % d, 1e-8)


def run_accuracy(scn, ctx):
    """Error at the end on refined grids: within a constant times h to the order of the method."""
    M = scn['order']
    order = 2 * M - (scn['method'] == 'radau')
    x, z, tt = cs.MX.sym('x', 2), cs.MX.sym('z'), cs.MX.sym('t')
    kw = {}
    if scn['fun'] == 'exp':
        ode, sol = cs.vertcat(-x[0], 0.5 * x[1]), lambda v: [np.exp(-v), 2 * np.exp(0.5 * v)]
    elif scn['fun'] == 'logistic':
        ode, sol = cs.vertcat(x[0] * (1 - x[0]), -x[1] ** 2), lambda v: [1 / (1 + 3 * np.exp(-v)), 1 / (1 + v)]
    elif scn['fun'] == 'osc':
        ode, sol = cs.vertcat(x[1], -x[0]), lambda v: [np.sin(v + 0.3), np.cos(v + 0.3)]
    else:
        kw = {'z': z, 'alg': z ** 3 + z - x[0] ** 3 - x[0]}     # z = x[0]
        ode, sol = cs.vertcat(-z, z * cs.cos(tt)), None
        kw['t'] = tt
        sol = lambda v: [np.exp(-v), 0.5 * (np.exp(-v) * (np.sin(v) - np.cos(v)) + 1)]
    for n in (2, 4, 8):
        t = [k / n for k in range(n + 1)]
        f = ce.collocationIntegrator('f', ce.SemiExplicitDae(x=x, ode=ode, **kw), t, M, scn['method'])
        o = f(x0=sol(0.0), z0=cs.DM.ones(f.size1_in(1)), u=cs.DM(0, n), p=cs.DM(0, 1))
        ctx.step()
        e = np.array([sol(v) for v in t]).T
        err = np.max(np.abs(o['x'].full() - e))
        ctx.expect(err <= (1.0 / n) ** order + 1e-9, lambda: '%s with %d intervals: error %g' % (scn['fun'], n, err))
        ctx.outcome(err)
