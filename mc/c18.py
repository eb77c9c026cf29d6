"""C18: quadrature states are the exact running integral of the quadrature rate."""
import itertools
import numpy as np
import casadi as cs
import daes as D
from core import sequences
from exact import Fr
from c16 import setup, evaluate
import casadi_extras as ce
from casadi_extras.collocation import CollocationScheme

BOUNDS = {
    'quick': 'models with 1 and 2 quadratures over all 648 size combinations x semi-explicit and implicit, 4 grids, orders and methods each in rotation; 5 models x 2 forms x 8 grids x orders 1 to 5 x 2 methods, at pairwise distinct values; 3 models of up to 5 states, 4 algebraic states, 4 inputs and 5 parameters on 5 further grids (7 and 12 intervals, very unequal lengths, far from 0); 12 option settings; polynomial rates of every degree below the order (and up to the full order of the weights), orders 1 to 7, for 8 grids and every refinement of each grid by splitting a subset of its intervals; every ordered pair A, B of 24 similar schemes used one after the other as A, B, A in one process',
    'thorough': '12 grids, orders and methods per size combination; orders up to 9',
}


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for k, s in enumerate(D.specs()):
        if not s['q']:
            continue
        for kind in ('semi', 'impl'):
            for r in range(12 if t else 4):
                out.append({'do': 'tags', 'spec': s, 'kind': kind, 'grid': (k + 3 * r) % D.NGRID, 'order': 1 + (k // 3 + r + r // 3) % 4, 'method': ('legendre', 'radau')[(k // 7 + r) % 2], 'opts': k % 6})
    for s, kind, g, o, m in itertools.product(D.SMALL[1:], ('semi', 'impl'), range(D.NGRID), range(1, 8 if t else 6), ('legendre', 'radau')):
        out.append({'do': 'tags', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': m, 'repeat': (g + o) % 3 == 0, 'opts': (g + o) % 6})
    for s, kind, g, o, m in itertools.product(D.LARGE[:2] + D.SMALL[1:], ('semi', 'impl'), D.LONG, (1, 2, 3, 6, 9) if t else (1, 3, 9), ('legendre', 'radau')):
        out.append({'do': 'tags', 'spec': s, 'kind': kind, 'grid': g, 'order': o, 'method': m, 'repeat': (g + o) % 3 == 0, 'opts': (g + o) % 6})
    for g, o, m in itertools.product(D.LONG, range(1, 10), ('legendre', 'radau')):
        n = len(D.GRIDS[g][1])
        for split in ((0,) * n, (1,) * n, (0, 1) * (n // 2) + (0,) * (n % 2)):
            out.append({'do': 'poly', 'grid': g, 'order': o, 'method': m, 'split': list(split)})
    for g, o, m in itertools.product(range(D.NGRID), range(1, 10 if t else 8), ('legendre', 'radau')):
        n = len(D.GRIDS[g][1])
        for split in itertools.product((0, 1), repeat=n):
            out.append({'do': 'poly', 'grid': g, 'order': o, 'method': m, 'split': list(split)})
    # no quadrature at all
    for g in range(3):
        out.append({'do': 'tags', 'spec': D.SMALL[0], 'kind': 'semi', 'grid': g, 'order': 2, 'method': 'radau', 'opts': 0})
    out += sequences([dict(s, do='tags', opts=0) for s in D.ALIKE])
    return out


OPTS = [{}, {'expand': False}, {'parallelization': 'unroll'}, {'parallelization': 'inline'}, {'parallelization': 'thread'}, {'expand': False, 'parallelization': 'unroll'}]


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.state(scn)
    ctx.trace()


def run_tags(scn, ctx):
    s, t, sch, vals, ref = setup(scn, **OPTS[scn['opts']])
    r = evaluate(sch, [sch.quad, sch.q, sch.Q], vals)
    for got, e, w in zip(r, (ref.quad, ref.q, ref.Q), ('quadrature derivatives', 'quadrature at the interval ends', 'quadrature at the collocation points')):
        D.close(ctx, got, e, w)
    ctx.outcome(ref.q.tolist())


def run_poly(scn, ctx):
    """Rates which are polynomials of time only, integrated exactly on any refinement."""
    t0 = D.breaks(D.GRIDS[scn['grid']])
    t = [t0[0]]
    for i, s in enumerate(scn['split']):
        if s:
            t.append(t0[i] + 0.375 * (t0[i + 1] - t0[i]))
        t.append(t0[i + 1])
    M = scn['order']
    x, tt = cs.MX.sym('x'), cs.MX.sym('t')
    full = 2 * M - (scn['method'] == 'radau')
    sch = CollocationScheme(ce.SemiExplicitDae(x=x, ode=-x, t=tt, quad=cs.vertcat(*[(d + 1) * tt ** d for d in range(full)])), t, M, scn['method'])
    z = [cs.DM.zeros(*v.shape) for v in (sch.x, sch.K, sch.Z, sch.u, sch.p)]
    q, Q = evaluate(sch, [sch.q, sch.Q], z)
    q, Q = q.full(), Q.full()
    F = lambda d, v: float(Fr(v) ** (d + 1) - Fr(t[0]) ** (d + 1))
    for d in range(full):
        scale = max(abs(v) for v in t) ** (d + 1) + 1
        for i, v in enumerate(t):
            ctx.step()
            ctx.expect(abs(q[d, i] - F(d, v)) <= 1e-9 * scale, lambda: 'the integral of t^%d up to %r is %r instead of %r' % (d, v, q[d, i], F(d, v)))
        if d < M:
            for k, v in enumerate(sch.tc):
                ctx.step()
                ctx.expect(abs(Q[d, k] - F(d, v)) <= 1e-9 * scale, lambda: 'the integral of t^%d up to %r is %r instead of %r' % (d, v, Q[d, k], F(d, v)))
    ctx.outcome(q.tolist())
