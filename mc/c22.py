"""C22: conversion to implicit form and parallel connection preserve the dynamics."""
import itertools
import numpy as np
import casadi as cs
import daes as D
from c21 import tag_values, same
import casadi_extras as ce
from casadi_extras.dae_model import parallel

BOUNDS = {
    'quick': 'implicit form: all 972 size combinations x semi-explicit (with and without structured variables) and implicit, and repeated conversion; parallel connection: every sequence of 1 to 4 models out of 11 time-invariant models (two with structural zeros in the equations), 22 lists each of 5 to 13 models, the same model type twice, nested connections (every grouping of 3 models), conversion of the connection to implicit form; all at pairwise distinct values',
    'thorough': 'as quick',
}
PM = [dict(x=a, z=b, u=c, p=d, t=0, tdp=0, q=e) for a, b, c, d, e in (
    (1, 0, 0, 0, 0), (2, 1, 0, 0, 1), (1, 1, 1, 1, 1), (2, 0, 2, 0, 0), (1, 2, 0, 2, 2), (3, 0, 1, 1, 2), (1, 0, 0, 0, 1), (2, 2, 2, 2, 2), (1, 0, 1, 3, 0))]
PM += [dict(x=a, z=b, u=c, p=d, t=0, tdp=0, q=e, sp=2) for a, b, c, d, e in ((2, 1, 1, 1, 2), (2, 0, 0, 0, 1))]


def scenarios(tier):
    out = []
    for s in D.specs():
        for kind in ('semi', 'impl'):
            out.append({'do': 'implicit', 'spec': s, 'kind': kind})
    for s in D.SMALL:
        out.append({'do': 'implicit', 'spec': s, 'kind': 'semi', 'structured': True})
        out.append({'do': 'implicit', 'spec': s, 'kind': 'impl', 'structured': True})
    for n in (1, 2, 3, 4):
        for seq in itertools.product(range(len(PM)), repeat=n):
            out.append({'do': 'parallel', 'models': list(seq), 'structured': sum(seq) % 4 == 0})
    for n in range(5, 14):
        # long lists: every rotation of the models, forwards and backwards
        for k in range(len(PM)):
            for d in (1, -1):
                out.append({'do': 'parallel', 'models': [(k + d * i) % len(PM) for i in range(n)], 'structured': k % 3 == 0})
    for seq in itertools.product((1, 2, 4, 7), repeat=3):
        for how in ('left', 'right', 'single'):
            out.append({'do': 'nested', 'models': list(seq), 'how': how})
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.state(scn)
    ctx.trace()


def call(d, ins, outs, v):
    f = d.createFunction('f', ins, outs)
    return [r.full().reshape(-1) for r in f.call([cs.DM(v[n]) if len(v[n]) else cs.DM(0, 1) for n in ins])]


def near(ctx, got, e, what):
    ctx.step()
    e = np.array(e, dtype=float)
    ctx.expect(got.shape == e.shape and np.allclose(got, e, 1e-10, 1e-10), lambda: '%s: %s instead of %s' % (what, got, e))


def run_implicit(scn, ctx):
    s, kind = scn['spec'], scn['kind']
    d = D.model(s, kind, scn.get('structured', False))
    m = d.makeImplicit()
    ctx.step()
    if kind == 'impl':
        ctx.expect(m is d, 'an implicit model converts to another one')
    ctx.expect(isinstance(m, ce.ImplicitDae), lambda: 'the implicit form is %s' % m)
    for n in ('x', 'z', 'u', 'p', 't', 'tdp', 'quad'):
        ctx.expect(same(getattr(m, n), getattr(d, n)), lambda: '%s differs: %s' % (n, getattr(m, n)))
    ctx.expect(m.xdot.is_valid_input() and tuple(m.xdot.shape) == (s['x'], 1), lambda: 'xdot %s' % m.xdot)
    v = tag_values(s, kind)
    groups = [v[g] if g != 't' or s['t'] else [] for g in D.GROUPS]
    if kind == 'semi':
        ode, alg, quad = D.rhs(s, kind, groups)
        res = [a - b for a, b in zip(v['xdot'], ode)] + alg
    else:
        res, quad = D.rhs(s, kind, groups, v['xdot'])
    for k in (0, 1):
        got = call(m, ['xdot'] + D.GROUPS, ['dae', 'quad'], v)
        near(ctx, got[0], res, 'residual')
        near(ctx, got[1], quad, 'quadrature')
        ctx.expect(m.makeImplicit() is m, 'converting again gives another model')
        m = d.makeImplicit()
    ctx.outcome(res)


def expected(seq, salt):
    """Stacked variables and equations of the models on their own parts."""
    v = {n: [] for n in D.GROUPS + ['xdot']}
    e = {n: [] for n in ('ode', 'alg', 'quad')}
    parts = []
    k = salt
    for i in seq:
        s = PM[i]
        groups = []
        for g in D.GROUPS:
            vals = [((k + j) * 0.6180339887498949 % 1.0) * 4 - 2 for j in range(1, s[g] + 1)]
            k += s[g]
            groups.append(vals)
            v[g] += vals
        ode, alg, quad = D.rhs(s, 'semi', groups)
        e['ode'] += ode
        e['alg'] += alg
        e['quad'] += quad
        parts.append(dict(zip(D.GROUPS, groups), ode=ode, alg=alg, quad=quad))
    v['t'] = [0.5]
    v['xdot'] = [((k + j) * 0.6180339887498949 % 1.0) * 4 - 2 for j in range(1, len(v['x']) + 1)]
    return v, e, parts


def check(ctx, m, seq, named=True):
    v, e, parts = expected(seq, 3)
    for n, size in (('x', 'nx'), ('z', 'nz'), ('u', 'nu'), ('p', 'np'), ('quad', 'nq')):
        k = len(e['quad'] if n == 'quad' else v[n])
        ctx.expect(getattr(m, size) == k and getattr(m, n).numel() == k, lambda: '%s is %s instead of %d' % (size, getattr(m, size), k))
    ctx.expect(isinstance(m, ce.SemiExplicitDae), 'the connection is %s' % m)
    ins = ['x', 'z', 'u', 'p', 't', 'tdp']
    got = call(m, ins, ['ode', 'alg', 'quad'], v)
    for g, n in zip(got, ('ode', 'alg', 'quad')):
        near(ctx, g, e[n], n)
    if named:
        # every model's part by its name
        f = cs.Function('f', [m.x, m.z, m.u, m.p], [cs.MX(getattr(m, n)['model_%d' % i]) for n in ('x', 'z', 'u', 'p', 'ode', 'alg', 'quad') for i in range(len(seq))])
        r = iter(f.call([cs.DM(v[n]) if v[n] else cs.DM(0, 1) for n in ('x', 'z', 'u', 'p')]))
        for n in ('x', 'z', 'u', 'p', 'ode', 'alg', 'quad'):
            ctx.expect(list(getattr(m, n).keys()) == ['model_%d' % i for i in range(len(seq))], lambda: 'parts of %s: %s' % (n, getattr(m, n).keys()))
            for i in range(len(seq)):
                near(ctx, next(r).full().reshape(-1), parts[i][n], '%s of model %d' % (n, i))
    im = m.makeImplicit()
    got = call(im, ['xdot'] + ins, ['dae', 'quad'], v)
    near(ctx, got[0], [a - b for a, b in zip(v['xdot'], e['ode'])] + e['alg'], 'residual of the implicit form')
    near(ctx, got[1], e['quad'], 'quadrature of the implicit form')
    ctx.outcome(e['ode'])


def run_parallel(scn, ctx):
    models = [D.model(PM[i], 'semi', scn['structured']) for i in scn['models']]
    m = parallel(models)
    ctx.step()
    check(ctx, m, scn['models'])
    for k, i in enumerate(scn['models']):
        # the connected models are as before
        v, e, parts = expected([i], 3)
        got = call(models[k], ['x', 'z', 'u', 'p', 't', 'tdp'], ['ode', 'alg', 'quad'], v)
        for g, n in zip(got, ('ode', 'alg', 'quad')):
            near(ctx, g, e[n], 'connected model %d: %s' % (k, n))


def run_nested(scn, ctx):
    a, b, c = (D.model(PM[i], 'semi') for i in scn['models'])
    if scn['how'] == 'left':
        m = parallel([parallel([a, b]), c])
    elif scn['how'] == 'right':
        m = parallel([a, parallel([b, c])])
    else:
        m = parallel([parallel([a]), parallel([b]), parallel([c])])
    ctx.step()
    check(ctx, m, scn['models'], False)
