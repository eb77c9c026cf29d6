"""C17: each collocation point sees its own time, input, parameter and time-varying data."""
import itertools
import numpy as np
import casadi as cs
import daes as D
from core import sequences
from c01 import must_raise
from c16 import evaluate
import casadi_extras as ce
from casadi_extras.collocation import CollocationScheme

BOUNDS = {
    'quick': 'options: expand on/off/default x parallelization serial, unroll, inline, thread, default x parameters shared/repeated/default, with map options, for 6 models x 2 forms x 3 grids; all 972 size combinations x 2 forms with parameters repeated and 4 option settings each in rotation; 3 models of up to 5 states, 4 algebraic states, 4 inputs and 5 parameters on 5 further grids (7 and 12 intervals, very unequal lengths, far from 0) with 8 option settings; time-dependent parameter functions as Python function of DM, numpy, list, scalar, casadi Function, with the sequence of times recorded; missing functions for every model with a time-dependent parameter; evaluation at 2 sets of pairwise distinct values; every ordered pair A, B of 24 similar schemes used one after the other as A, B, A in one process',
    'thorough': 'options for all 8 grids and orders 1 to 4; the size combinations with every option setting',
}
PAR = ['serial', 'unroll', 'inline', 'thread', None]


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    k = 0
    for s, kind, g in itertools.product(D.SMALL, ('semi', 'impl'), range(8) if t else (1, 3, 5)):
        for ex, par, rep in itertools.product((True, False, None), PAR, (True, False, None)):
            k += 1
            out.append({'do': 'options', 'spec': s, 'kind': kind, 'grid': g, 'order': 1 + k % 3, 'method': ('legendre', 'radau')[k // 3 % 2], 'expand': ex, 'par': par, 'rep': rep})
    for k, s in enumerate(D.specs()):
        for kind in ('semi', 'impl'):
            for ex, par in [((True, False)[k % 2], PAR[k % 4])] if not t else itertools.product((True, False), PAR[:4]):
                out.append({'do': 'options', 'spec': s, 'kind': kind, 'grid': (k // 2) % D.NGRID, 'order': 1 + (k // 3) % 3, 'method': ('legendre', 'radau')[(k // 7) % 2],
                            'expand': ex, 'par': par, 'rep': True})
        if s['tdp']:
            out.append({'do': 'missing', 'spec': s, 'kind': ('semi', 'impl')[k % 2]})
    for k, (s, kind, g) in enumerate(itertools.product(D.LARGE + D.SMALL[3:], ('semi', 'impl'), D.LONG)):
        for ex, par, rep in itertools.product((True, False), PAR[:4], (True, False)):
            out.append({'do': 'options', 'spec': s, 'kind': kind, 'grid': g, 'order': 1 + k % 4, 'method': ('legendre', 'radau')[k // 3 % 2], 'expand': ex, 'par': par, 'rep': rep})
    for s in D.SMALL + D.LARGE:
        if s['tdp']:
            for g, o in itertools.product(range(len(D.GRIDS)), (1, 2, 3)):
                for form in ('dm', 'np', 'list', 'function', 'scalar'):
                    if form == 'scalar' and s['tdp'] != 1:
                        continue
                    out.append({'do': 'tdp', 'spec': s, 'kind': 'semi', 'grid': g, 'order': o, 'method': 'radau' if g % 2 else 'legendre', 'form': form})
    out += sequences([dict(s, do='options', expand=True, par='serial', rep=False) for s in D.ALIKE])
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.state(scn)
    ctx.trace()


def judge(ctx, scn, sch, t, rep, what):
    s, N, M = scn['spec'], len(t) - 1, scn['order']
    for salt in (0, 1000):
        vals = D.values(s, N, M, rep, salt)
        ref = D.Reference(s, scn['kind'], t, M, scn['method'], *vals)
        ctx.expect(tuple(sch.p.shape) == vals[4].shape, lambda: 'parameters of shape %s' % (sch.p.shape,))
        r = evaluate(sch, [sch.eq['collocation'], sch.eq['continuity'], sch.eq['param'], sch.quad, sch.U], vals)
        for got, e, w in zip(r, (ref.eq, ref.cont, ref.param, ref.quad, ref.U), ('collocation equations', 'continuity equations', 'parameter equations', 'quadrature derivatives', 'input at the collocation points')):
            D.close(ctx, got, e, '%s: %s' % (what, w))
        ctx.outcome(ref.eq.tolist())


def run_options(scn, ctx):
    s = scn['spec']
    t = D.breaks(D.GRIDS[scn['grid']])
    kw = {}
    for k, n in (('expand', 'expand'), ('par', 'parallelization'), ('rep', 'repeat_param')):
        if scn[k] is not None:
            kw[n] = scn[k]
    if scn['par'] == 'serial' and scn['rep'] is None:
        kw['options'] = {}
    if s['tdp']:
        kw['tdp_fun'] = D.tdp_fun(s)
    sch = CollocationScheme(D.model(s, scn['kind']), t=t, order=scn['order'], method=scn['method'], **kw)
    judge(ctx, scn, sch, t, bool(scn['rep']), 'options %s' % {k: v for k, v in kw.items() if k != 'tdp_fun'})


def run_tdp(scn, ctx):
    s = scn['spec']
    t = D.breaks(D.GRIDS[scn['grid']])
    seen = []

    def f(tau):
        seen.append(float(tau))
        v = D.tdp_value(s, float(tau))
        return {'dm': lambda: cs.DM(v), 'np': lambda: np.array(v), 'list': lambda: cs.DM(v), 'scalar': lambda: v[0]}[scn['form']]()
    if scn['form'] == 'function':
        tt = cs.MX.sym('t')
        f = cs.Function('tdp', [tt], [cs.vertcat(*D.tdp_value(s, tt))])
    sch = CollocationScheme(D.model(s, scn['kind']), t, scn['order'], scn['method'], tdp_fun=f)
    judge(ctx, scn, sch, t, False, 'time-dependent parameter as %s' % scn['form'])
    if seen:
        A, b, c = D.tableau(scn['order'], scn['method'])
        e = [t[i] + (t[i + 1] - t[i]) * cj for i in range(len(t) - 1) for cj in c]
        ctx.expect(all(min(abs(v - w) for w in e) < 1e-12 for v in seen), lambda: 'the function is sampled at %s instead of %s' % (seen, e))


def run_missing(scn, ctx):
    for o, m, rep in ((1, 'radau', False), (2, 'legendre', True)):
        for t in ([0., 1.], [0., 1., 3.]):
            must_raise(ctx, lambda: CollocationScheme(D.model(scn['spec'], scn['kind']), t, o, m, repeat_param=rep), 'model with time-dependent parameter but no function')
            must_raise(ctx, lambda: CollocationScheme(D.model(scn['spec'], scn['kind']), t, o, m, tdp_fun=None), 'model with time-dependent parameter but no function')
