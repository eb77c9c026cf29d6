"""C16: collocation equations vanish exactly at the discretised dynamics."""
import itertools
import numpy as np
import casadi as cs
import daes as D
from core import sequences
from c01 import must_raise
import casadi_extras as ce
from casadi_extras.collocation import CollocationScheme

BOUNDS = {
    'quick': 'all 972 combinations of 1-2 states, 0-2 algebraic states, 0-2 inputs, 0-2 parameters, time, 0-2 time-dependent parameters, 0-2 quadratures x semi-explicit and implicit x 4 grids, orders and methods each in rotation; 6 models x 2 forms x 8 grids of 1 to 4 unequal intervals x orders 1 to 4 x legendre, radau; 3 models of up to 5 states, 4 algebraic states, 4 inputs and 5 parameters on 5 further grids (7 and 12 intervals, very unequal lengths, far from 0); structured variables; every variable group at pairwise distinct values; combinations of up to 3 of the 8 parts in every order, unknown parts; every ordered pair A, B of 24 similar schemes used one after the other as A, B, A in one process',
    'thorough': '12 settings per size combination, orders up to 7',
}
PARTS = ['K', 'x', 'Z', 'U', 'u', 'p', 'eq', 'q']


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for k, s in enumerate(D.specs()):
        for kind in ('semi', 'impl'):
            for r in range(12 if t else 4):
                out.append({'do': 'eq', 'spec': s, 'kind': kind, 'grid': (k + 3 * r) % D.NGRID, 'order': 1 + (k // 3 + r + r // 3) % 4, 'method': ('legendre', 'radau')[(k // 7 + r) % 2]})
    for s, kind, g, o, m in itertools.product(D.SMALL, ('semi', 'impl'), range(D.NGRID), range(1, 8 if t else 5), ('legendre', 'radau')):
        out.append({'do': 'eq', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': m, 'repeat': (g + o) % 3 == 0})
    for s, kind, g, o, m in itertools.product(D.LARGE + D.SMALL, ('semi', 'impl'), D.LONG, (1, 2, 3, 5, 9) if t else (1, 3, 9), ('legendre', 'radau')):
        out.append({'do': 'eq', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': m, 'repeat': (g + o) % 3 == 0})
    for s in D.SMALL + D.LARGE:
        for g, o in ((0, 1), (3, 2), (5, 3)):
            for kind in ('semi', 'impl'):
                out.append({'do': 'eq', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': 'radau', 'structured': True})
    for s in D.SMALL:
        for g in (0, 3, 5):
            for rep in (False, True):
                out.append({'do': 'combine', 'spec': s, 'kind': 'semi', 'grid': g, 'order': 2, 'method': 'legendre', 'repeat': rep})
    out += sequences([dict(s, do='eq') for s in D.ALIKE])
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.trace()


def setup(scn, **kw):
    s = scn['spec']
    t = D.breaks(D.GRIDS[scn['grid']])
    dae = D.model(s, scn['kind'], scn.get('structured', False))
    rep = scn.get('repeat', False)
    if rep:
        kw['repeat_param'] = True
    if s['tdp']:
        kw['tdp_fun'] = D.tdp_fun(s)
    given = t if scn['grid'] % 2 else np.array(t)
    sch = CollocationScheme(dae, given, scn['order'], scn['method'], **kw)
    vals = D.values(s, len(t) - 1, scn['order'], rep)
    ref = D.Reference(s, scn['kind'], t, scn['order'], scn['method'], *vals)
    return s, t, sch, vals, ref


def evaluate(sch, exprs, vals):
    f = cs.Function('f', [sch.x, sch.K, sch.Z, sch.u, sch.p], exprs)
    return f.call([cs.DM(v) for v in vals])


def run_eq(scn, ctx):
    s, t, sch, vals, ref = setup(scn)
    N, M = len(t) - 1, scn['order']
    x, K, Z, u, P = vals
    ctx.state(scn)
    for v, e, n in ((sch.x, x, 'x'), (sch.K, K, 'K'), (sch.Z, Z, 'Z'), (sch.u, u, 'u'), (sch.p, P, 'p'), (sch.xdot, K, 'xdot')):
        ctx.expect(tuple(v.shape) == e.shape, lambda: '%s has shape %s instead of %s' % (n, v.shape, e.shape))
        ctx.expect(v.is_valid_input(), '%s is not a variable' % n)
    ctx.expect(sch.numTotalCollocationPoints == N * M, 'number of collocation points %s' % sch.numTotalCollocationPoints)
    ctx.expect([float(v) for v in sch.t] == t, 'intervals %s' % (sch.t,))
    D.close(ctx, np.asarray(sch.tc), ref.tc, 'collocation times', 1e-13)
    A, b, c = D.tableau(M, scn['method'])
    D.close(ctx, np.asarray(sch.butcher.A), A, 'tableau matrix')
    D.close(ctx, np.asarray(sch.butcher.b), b, 'tableau weights')
    eq = sch.eq
    flat = np.concatenate([v.T.reshape(-1) for v in (ref.eq, ref.cont, ref.param)])[:, None]
    ctx.expect(list(eq.keys()) == ['collocation', 'continuity', 'param'], 'parts of the equations: %s' % (eq.keys(),))
    r = evaluate(sch, [eq.cat, eq['collocation'], eq['continuity'], eq['param'], sch.X, sch.U, sch.xdot], vals)
    for got, e, w in zip(r, (flat, ref.eq, ref.cont, ref.param, ref.X, ref.U, K),
                         ('equations', 'collocation equations', 'continuity equations', 'parameter equations', 'state at the collocation points', 'input at the collocation points', 'derivatives')):
        D.close(ctx, got, e, w)
    D.close(ctx, sch.evalX(cs.DM(x), cs.DM(K)), ref.X, 'evaluated state at the collocation points')
    ctx.outcome(flat.tolist())


def run_combine(scn, ctx):
    s, t, sch, vals, ref = setup(scn)
    x, K, Z, u, P = vals
    val = {'K': K, 'x': x, 'Z': Z, 'U': ref.U, 'u': u, 'p': P, 'q': ref.q,
           'eq': np.concatenate([v.T.reshape(-1) for v in (ref.eq, ref.cont, ref.param)])[:, None]}
    f = None
    for n in (1, 2, 3, 8):
        for what in itertools.permutations(PARTS, n) if n < 8 else [PARTS, PARTS[::-1]]:
            c = sch.combine(list(what))
            ctx.step()
            ctx.state(what)
            ctx.expect(list(c.keys()) == list(what), lambda: 'combining %s gives %s' % (what, c.keys()))
            e = np.concatenate([val[w].T.reshape(-1) for w in what])[:, None]
            ctx.expect(c.size == len(e), lambda: 'combining %s gives size %s' % (what, c.size))
            if n < 3 or hash_of(what) % 7 == 0:
                r = evaluate(sch, [c.cat] + [cs.MX(c[w]) for w in what], vals)
                D.close(ctx, r[0], e, 'combination %s' % (what,))
                for w, v in zip(what, r[1:]):
                    D.close(ctx, v, val[w], 'part %s of combination %s' % (w, what))
    for bad in (['foo'], ['K', 'foo'], ['foo', 'x'], ['butcher'], ['x', 'pdq']):
        must_raise(ctx, lambda: sch.combine(bad), 'combining %s' % (bad,))


def hash_of(what):
    return sum((k + 1) * PARTS.index(w) for k, w in enumerate(what))
