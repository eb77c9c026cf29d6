"""C21: DAE models accept exactly the well-formed definitions and report them faithfully."""
import itertools
import numpy as np
import casadi as cs
import daes as D
from c01 import must_raise
import casadi_extras as ce

BOUNDS = {
    'quick': 'definitions: every combination of forms (absent, column of 0-3, stacked symbols, structure, row, matrix, expression, part of a symbol, constant, numeric; for equations also columns with structural zeros) for any 4 of the 10 arguments of semi-explicit and any 3 of the 9 of implicit models, the rest well-formed; all combinations of sizes 0-3 of state, derivative, algebraic state and equations; 972 size combinations x 2 forms: reported variables and sizes; functions: all ordered selections of 1 to 5 input names with all ordered selections of the outputs depending on them only, and full inputs in 14 orders with all ordered selections of outputs, evaluated at distinct values; unknown names',
    'thorough': 'as quick',
}
SEMI = ['x', 'z', 'u', 'p', 't', 'tdp', 'ode', 'alg', 'quad']
IMPL = ['xdot', 'x', 'z', 'u', 'p', 't', 'tdp', 'dae', 'quad']
BASE = {'x': 2, 'z': 1, 'u': 2, 'p': 2, 't': 1, 'tdp': 1, 'ode': 2, 'alg': 1, 'quad': 1, 'xdot': 2, 'dae': 3}
VARFORMS = ['absent', 'col0', 'col1', 'col2', 'cat2', 'struct2', 'row2', 'mat22', 'expr2', 'part2', 'const2', 'dm2']
EQFORMS = ['absent', 'col0', 'col1', 'col2', 'col3', 'row2', 'mat22', 'sym2', 'const2', 'zero2', 'partly2']


def forms(n):
    if n in ('ode', 'alg', 'dae', 'quad'):
        return [f for f in EQFORMS if not (n == 'quad' and f in ('row2', 'mat22'))]
    if n == 't':
        return ['absent', 'col0', 'col1', 'col2', 'row2', 'mat22', 'expr1', 'const1', 'part1', 'dm1']
    return VARFORMS


def scenarios(tier):
    out = []
    for kind, names, r in (('semi', SEMI, 4), ('impl', IMPL, 3)):
        for sub in itertools.combinations(names, r):
            if r < 4:
                for f in forms(sub[0]):
                    out.append({'do': 'define', 'kind': kind, 'names': list(sub), 'first': f})
            else:
                for f, g in itertools.product(forms(sub[0]), forms(sub[1])):
                    out.append({'do': 'define', 'kind': kind, 'names': list(sub), 'first': f, 'second': g})
    out.append({'do': 'counts', 'kind': 'semi'})
    out.append({'do': 'counts', 'kind': 'impl'})
    for s in D.specs():
        for kind in ('semi', 'impl'):
            out.append({'do': 'report', 'spec': s, 'kind': kind})
    for k, s in enumerate(D.SMALL):
        for kind in ('semi', 'impl'):
            for st in (False, True):
                out.append({'do': 'functions', 'spec': s, 'kind': kind, 'structured': st})
                out.append({'do': 'report', 'spec': s, 'kind': kind, 'structured': st})
    for s in ({'x': 1, 'z': 1, 'u': 1, 'p': 1, 'tdp': 1}, {'x': 2, 'z': 1, 'u': 3, 'p': 2, 'tdp': 1}, {'x': 1, 'z': 2, 'u': 2, 'p': 3, 'tdp': 2}):
        for kind in ('semi', 'impl'):
            for first in (['xdot'] if kind == 'impl' else []) + D.GROUPS:
                out.append({'do': 'selections', 'spec': s, 'kind': kind, 'first': first})
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.state(scn)
    ctx.trace()


def value(name, form):
    """The argument and its number of elements, None if not a well-formed column of symbols."""
    n = int(form[-1]) if form[-1].isdigit() else 0
    s = cs.MX.sym(name, max(n, 1))
    if form.startswith('col'):
        return cs.MX.sym(name, n)
    return {'cat': lambda: cs.vertcat(*[cs.MX.sym('%s%d' % (name, k)) for k in range(n)]),
            'struct': lambda: ce.struct_symMX([name + 'a', name + 'b']),
            'row': lambda: cs.MX.sym(name, 1, n), 'mat': lambda: cs.MX.sym(name, 2, 2), 'expr': lambda: 2 * s, 'sym': lambda: s,
            'zero': lambda: cs.MX(n, 1), 'partly': lambda: cs.vertcat(cs.MX(1, 1), cs.MX.sym(name, n - 1)),
            'part': lambda: cs.MX.sym(name, n + 1)[:n], 'const': lambda: cs.MX(cs.DM([1.5] * n)), 'dm': lambda: cs.DM([1.5] * n)}[form.rstrip('0123456789')]()


def well_formed(kind, form):
    """kind: definition as argument -> form; True if the model must be accepted."""
    num = {}
    for n, f in form.items():
        base = f.rstrip('0123456789')
        k = 0 if f == 'absent' else 4 if base == 'mat' else int(f[-1])
        if f == 'absent':
            if n in ('x', 'xdot', 'ode', 'dae'):
                return False
        elif n in ('p', 'tdp'):
            if base in ('expr', 'part', 'const', 'dm'):
                return False
        elif n == 't':
            if f != 'col1':
                return False
        elif n in ('ode', 'alg', 'dae'):
            if base in ('row', 'mat'):
                return False
        elif n != 'quad':
            if base not in ('col', 'cat', 'struct'):
                return False
        num[n] = k
    if kind == 'semi':
        return num['x'] == num['ode'] and num['z'] == num['alg']
    return num['x'] == num['xdot'] and num['x'] + num['z'] == num['dae']


def build(kind, form):
    kw = {n: value(n, f) for n, f in form.items() if f != 'absent'}
    return kw, (lambda: (ce.SemiExplicitDae if kind == 'semi' else ce.ImplicitDae)(**kw))


def same(a, b):
    return a is b or cs.is_equal(cs.MX(a), cs.MX(b))


def judge(ctx, kind, form):
    ok = well_formed(kind, form)
    kw, make = build(kind, form)
    if not ok:
        must_raise(ctx, make, '%s model %s' % (kind, form))
        return
    try:
        d = make()
    except Exception as e:
        ctx.fail('%s model %s is rejected: %s' % (kind, form, e))
    ctx.step()
    ctx.outcome('accepted')
    report(ctx, d, kind, kw)


def report(ctx, d, kind, kw):
    for n, size in (('x', 'nx'), ('z', 'nz'), ('u', 'nu'), ('p', 'np'), ('tdp', 'ntdp'), ('quad', 'nq')):
        v = getattr(d, n)
        if n in kw:
            ctx.expect(same(v, kw[n]), lambda: '%s is reported as %s' % (n, v))
            ctx.expect(tuple(v.shape) == tuple(kw[n].shape), lambda: '%s has shape %s' % (n, v.shape))
            ctx.expect(getattr(d, size) == kw[n].numel(), lambda: '%s is %s' % (size, getattr(d, size)))
        else:
            ctx.expect(v.numel() == 0 and getattr(d, size) == 0, lambda: 'absent %s is reported as %s' % (n, v))
    ctx.expect(tuple(d.t.shape) == (1, 1) and d.t.is_valid_input() and ('t' not in kw or same(d.t, kw['t'])), lambda: 't is reported as %s' % d.t)
    for n in ('ode', 'alg') if kind == 'semi' else ('xdot', 'dae'):
        v = getattr(d, n)
        ctx.expect(same(v, kw[n]) if n in kw else v.numel() == 0, lambda: '%s is reported as %s' % (n, v))


def run_define(scn, ctx):
    kind = scn['kind']
    names = SEMI if kind == 'semi' else IMPL
    rest = [forms(n) for n in scn['names'][1:]]
    if 'second' in scn:
        rest[0] = [scn['second']]
    for fs in itertools.product([scn['first']], *rest):
        form = {n: 'col%d' % BASE[n] for n in names}
        form.update(zip(scn['names'], fs))
        ctx.history = [form]
        judge(ctx, kind, form)
        ctx.state(fs)


def run_counts(scn, ctx):
    kind = scn['kind']
    names = ['x', 'z', 'ode', 'alg'] if kind == 'semi' else ['x', 'z', 'xdot', 'dae']
    for k in itertools.product(range(5), repeat=4):
        judge(ctx, kind, {**{n: 'absent' for n in (SEMI if kind == 'semi' else IMPL)}, **{n: 'col%d' % v for n, v in zip(names, k)}})
        ctx.state(k)


def run_report(scn, ctx):
    """Variables are those given, absent ones are empty, expressions have the given values."""
    s, kind = scn['spec'], scn['kind']
    d = D.model(s, kind, scn.get('structured', False))
    for n, size, k in (('x', 'nx', 'x'), ('z', 'nz', 'z'), ('u', 'nu', 'u'), ('p', 'np', 'p'), ('tdp', 'ntdp', 'tdp'), ('quad', 'nq', 'q')):
        ctx.step()
        ctx.expect(getattr(d, size) == s[k] and getattr(d, n).numel() == s[k], lambda: '%s is %s instead of %s' % (size, getattr(d, size), s[k]))
    outs = ['ode', 'alg', 'quad'] if kind == 'semi' else ['dae', 'quad']
    ins = (['xdot'] if kind == 'impl' else []) + D.GROUPS
    check_function(ctx, d, s, kind, ins, outs)


def tag_values(s, kind):
    v, k = {}, 0
    for n in ['xdot'] + D.GROUPS:
        m = s['x'] if n == 'xdot' else 1 if n == 't' else s[n]
        v[n] = [((k + j) * 0.6180339887498949 % 1.0) * 4 - 2 for j in range(1, m + 1)]
        k += m
    return v


def expected(s, kind, v):
    groups = [v[g] if g != 't' or s['t'] else [] for g in D.GROUPS]
    e = dict(v)
    if kind == 'semi':
        e['ode'], e['alg'], e['quad'] = D.rhs(s, kind, groups)
    else:
        e['dae'], e['quad'] = D.rhs(s, kind, groups, v['xdot'])
    return e


def check_function(ctx, d, s, kind, ins, outs):
    f = d.createFunction('name', list(ins), list(outs))
    ctx.step()
    ctx.expect(f.name() == 'name' and f.name_in() == list(ins) and f.name_out() == list(outs), lambda: 'function %s for %s -> %s' % (f, ins, outs))
    v = tag_values(s, kind)
    e = expected(s, kind, v)
    for r in (f.call([cs.DM(v[n]) if v[n] else cs.DM(0, 1) for n in ins]), [f(**{n: cs.DM(v[n]) if v[n] else cs.DM(0, 1) for n in ins})[n] for n in outs]):
        for n, got in zip(outs, r):
            x = np.array(e[n], dtype=float)
            g = got.full().reshape(-1)
            ctx.expect(g.shape == x.shape and np.allclose(g, x, 1e-10, 1e-10), lambda: 'function of %s: %s is %s instead of %s' % (ins, n, g, x))


def run_functions(scn, ctx):
    s, kind = scn['spec'], scn['kind']
    d = D.model(s, kind, scn['structured'])
    ins = (['xdot'] if kind == 'impl' else []) + D.GROUPS
    outs = ['ode', 'alg', 'quad'] if kind == 'semi' else ['dae', 'quad']
    for k in range(len(ins)):
        for order in (ins[k:] + ins[:k], (ins[k:] + ins[:k])[::-1]):
            for n in (1, 2, 3):
                for o in itertools.permutations(outs, n):
                    check_function(ctx, d, s, kind, order, o)
                    ctx.state((tuple(order), o))
    for bad in (['y'], ['x', 'foo'], ['xx'], ['']):
        must_raise(ctx, lambda: d.createFunction('f', bad, ['quad']), 'function of %s' % bad)
        must_raise(ctx, lambda: d.createFunction('f', ins, bad), 'function for %s' % bad)


def run_selections(scn, ctx):
    """Expressions depending on one or two groups each, with any inputs containing those."""
    s, kind = scn['spec'], scn['kind']
    sym = {n: cs.MX.sym(n, s['x'] if n == 'xdot' else 1 if n == 't' else s[n]) for n in ['xdot'] + D.GROUPS}
    expr, dep = {}, {}
    if kind == 'semi':
        expr = {'ode': lambda v: 2 * v['x'] + v['t'], 'alg': lambda v: 3 * v['z'], 'quad': lambda v: v['u'] - 1}
        dep = {'ode': ['x', 't'], 'alg': ['z'], 'quad': ['u']}
    else:
        expr = {'dae': lambda v: cs.vertcat(v['xdot'] * 5 + 1, v['z']), 'quad': lambda v: v['p'] * 4}
        dep = {'dae': ['xdot', 'z'], 'quad': ['p']}
    kw = {n: sym[n] for n in D.GROUPS + (['xdot'] if kind == 'impl' else [])}
    kw.update({n: f(sym) for n, f in expr.items()})
    d = (ce.SemiExplicitDae if kind == 'semi' else ce.ImplicitDae)(**kw)
    val = {n: cs.DM([10.0 * k + j + 1 for j in range(sym[n].numel())]) for k, n in enumerate(sym)}
    ins = D.GROUPS + (['xdot'] if kind == 'impl' else [])
    for n in range(1, 6):
        for i in itertools.permutations(ins, n):
            if i[0] != scn['first']:
                continue
            can = [o for o in expr if set(dep[o]) <= set(i)]
            for m in range(1, len(can) + 1):
                for o in itertools.permutations(can, m):
                    f = d.createFunction('f', list(i), list(o))
                    ctx.step()
                    ctx.state((i, o))
                    ctx.expect(f.name_in() == list(i) and f.name_out() == list(o), lambda: 'function %s for %s -> %s' % (f, i, o))
                    for g, w in zip(f.call([val[k] for k in i]), o):
                        e = cs.DM(expr[w](val))
                        ctx.expect(g.full().tolist() == e.full().tolist(), lambda: 'function of %s: %s is %s instead of %s' % (i, w, g, e))
