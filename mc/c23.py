"""C23: an inequality always carries bounds and nominal of the shape of its expression."""
import itertools
import numpy as np
import casadi as cs
from c01 import must_raise
import casadi_extras as ce

BOUNDS = {
    'quick': 'expressions: default and 17 shapes up to 3x3, 12x1, 1x11 and 5x6 (empty, scalar, column, row, matrix) as MX symbol, MX expression, SX, DM, sparse and structured; lower, upper and nominal each omitted, right, infinite/nan, extreme (1e20, 1e-300, zero; the same for all), huge in all elements, or wrong in one of 10 shapes, for every combination; values as DM, numpy, list, nested list, number, structured value; positional and keyword arguments; bounded variables of all shapes and bounds; all pairs of objects built from the same values with every element of one overwritten',
    'thorough': 'shapes up to 4x4',
}
SHAPES = [(0, 1), (1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3), (1, 0), (0, 0), (0, 2), (4, 1), (12, 1), (1, 11), (5, 6)]
WRONG = [(0, 1), (1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (4, 1), (0, 0), (3, 2)]


def scenarios(tier):
    t = tier == 'thorough'
    out = [{'do': 'default'}]
    sh = SHAPES + ([(4, 4), (4, 2), (1, 4), (4, 3)] if t else [])
    for s in sh:
        for kind in ('sym', 'expr', 'SX', 'DM'):
            out.append({'do': 'make', 'shape': list(s), 'kind': kind})
        out.append({'do': 'variable', 'shape': list(s)})
        out.append({'do': 'share', 'shape': list(s)})
        out.append({'do': 'forms', 'shape': list(s)})
    out += [{'do': 'make', 'shape': [3, 1], 'kind': 'struct'}, {'do': 'make', 'shape': [2, 2], 'kind': 'sparse'}, {'do': 'make', 'shape': [3, 1], 'kind': 'structmx'}]
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.state(scn)
    ctx.trace()


def expr_of(kind, s):
    if kind == 'sym':
        return cs.MX.sym('x', *s)
    if kind == 'expr':
        return cs.sin(cs.MX.sym('x', *s)) + 1
    if kind == 'SX':
        return cs.SX.sym('x', *s)
    if kind == 'DM':
        return cs.DM.ones(*s)
    if kind == 'struct':
        return ce.struct_symMX(['a', ce.entry('b', shape=2)])
    if kind == 'structmx':
        return ce.struct_MX([ce.entry('a', expr=2 * cs.MX.sym('a')), ce.entry('b', expr=cs.MX.sym('b', 2))])
    return cs.MX.sym('x', cs.Sparsity.lower(2))


def data(s, base):
    return cs.DM(np.arange(base, base + s[0] * s[1], dtype=float).reshape(s[1], s[0]).T) if s[0] * s[1] else cs.DM(*s)


def same(a, b):
    return tuple(a.shape) == tuple(b.shape) and np.array_equal(cs.DM(a).full(), cs.DM(b).full(), equal_nan=True)


def check(ctx, q, expr, lb, ub, nom, what):
    s = tuple(expr.shape)
    ctx.expect(q.expr is expr, lambda: '%s: expression %s' % (what, q.expr))
    ctx.expect(same(q.lb, lb if lb is not None else -cs.DM.inf(*s)), lambda: '%s: lower bound %s' % (what, q.lb))
    ctx.expect(same(q.ub, ub if ub is not None else cs.DM.inf(*s)), lambda: '%s: upper bound %s' % (what, q.ub))
    ctx.expect(q.nominal is None if nom is None else q.nominal is not None and same(q.nominal, nom), lambda: '%s: nominal %s' % (what, q.nominal))
    ctx.expect(q.numel() == s[0] * s[1], lambda: '%s: number of elements %s' % (what, q.numel()))


def run_make(scn, ctx):
    s = tuple(scn['shape'])
    e = expr_of(scn['kind'], s)
    wrong = [w for w in WRONG if w != s]
    opts = [('omit', None), ('right', None), ('nan', None), ('extreme', None), ('huge', None)] + [('wrong', w) for w in wrong]

    def val(k, o):
        if o[0] == 'omit':
            return None
        if o[0] == 'wrong':
            return data(o[1], 50 + 100 * k)
        if o[0] == 'extreme':
            # the same for all three, very large, very small and zero ones
            return cs.reshape(cs.DM([(-1e20, 1e20, 0, 1e-20, -1e-300, 1e300, 1. / 3)[i % 7] for i in range(s[0] * s[1])]), *s)
        if o[0] == 'huge':
            return (-1, 1, 1)[k] * 1e20 * data(s, 10 + 100 * k)
        v = data(s, 10 + 100 * k)
        if o[0] == 'nan' and v.numel():
            v[0, 0] = (-np.inf, np.inf, np.nan)[k]
        return v
    for c in itertools.product(opts, repeat=3):
        if sum(o[0] == 'wrong' for o in c) > 2:
            continue
        lb, ub, nom = (val(k, o) for k, o in enumerate(c))
        ctx.state(c)
        what = 'inequality of shape %s with %s' % (s, c)
        if any(o[0] == 'wrong' for o in c):
            must_raise(ctx, lambda: ce.Inequality(e, lb, ub, nom), what)
            continue
        kw = {n: v for n, v in (('lb', lb), ('ub', ub), ('nominal', nom)) if v is not None}
        for q in (ce.Inequality(e, lb, ub, nom), ce.Inequality(expr=e, **kw)):
            ctx.step()
            check(ctx, q, e, lb, ub, nom, what)
        ctx.outcome(c)


def run_forms(scn, ctx):
    """The same values in other representations."""
    s = tuple(scn['shape'])
    e = cs.MX.sym('x', *s)
    v = data(s, 3)
    forms = [v, v.full()]
    if s[1] == 1 and s[0]:
        flat = [float(x) for x in v.full().reshape(-1)]
        forms += [flat, tuple(flat), np.array(flat), [int(x) for x in flat]]
    if s[0] * s[1]:
        forms.append(v.full().tolist())
        st = ce.struct(['a', ce.entry('b', shape=s[0] - 1)]) if s[1] == 1 and s[0] > 1 else None
        if st is not None:
            forms.append(st(v))
    if s == (1, 1):
        forms += [3.0, 3, np.float64(3.0)]
    for k in range(3):
        for f in forms:
            a = [None, None, None]
            a[k] = f
            q = ce.Inequality(e, *a)
            ctx.step()
            b = [None, None, None]
            b[k] = v
            check(ctx, q, e, *b, what='value given as %s' % type(f).__name__)
            ctx.expect(isinstance(q[1 + k], cs.DM) or hasattr(q[1 + k], 'cat'), lambda: 'value of type %s' % type(q[1 + k]))
            ctx.state((k, str(type(f))))
    # numbers are not broadcast
    if s != (1, 1):
        for k in range(3):
            a = [None, None, None]
            a[k] = 1.5
            must_raise(ctx, lambda: ce.Inequality(e, *a), 'number for shape %s' % (s,))


def run_default(scn, ctx):
    q = ce.Inequality()
    ctx.step()
    ctx.expect(q.numel() == 0 and q.lb.numel() == 0 and q.ub.numel() == 0 and q.nominal is None, 'default inequality %s' % (q,))
    v = ce.BoundedVariable()
    ctx.expect(v.numel() == 0 and v.nominal.numel() == 0 and v.expr.is_valid_input(), 'default variable %s' % (v,))
    must_raise(ctx, lambda: ce.Inequality(lb=[1.0]), 'bound without expression')
    must_raise(ctx, lambda: ce.Inequality(nominal=[1.0]), 'nominal without expression')
    must_raise(ctx, lambda: ce.BoundedVariable(lb=[1.0]), 'bound for empty variable')


def run_variable(scn, ctx):
    s = tuple(scn['shape'])
    nom, lb, ub = data(s, 5), data(s, 100), data(s, 200)
    for l, u in itertools.product((None, lb), (None, ub)):
        for name in ('a', 'var', 'long name'):
            for form in (nom, nom.full()):
                q = ce.BoundedVariable(name, l, u, form)
                r = ce.BoundedVariable(name=name, lb=l, ub=u, nominal=form)
                ctx.step(2)
                for b in (q, r):
                    check(ctx, b, b.expr, l, u, nom, 'bounded variable')
                    ctx.expect(tuple(b.expr.shape) == s and b.expr.is_valid_input() and (not b.numel() or b.expr.name() == name), lambda: 'symbol %s of shape %s' % (b.expr, b.expr.shape))
                    ctx.expect(isinstance(b, ce.Inequality), 'not an inequality')
                if q.numel():
                    ctx.expect(not cs.is_equal(q.expr, r.expr), 'two variables share their symbol')
        ctx.state((l is None, u is None))
    for w in WRONG:
        if w != s:
            must_raise(ctx, lambda: ce.BoundedVariable('a', data(w, 1), None, nom), 'lower bound of shape %s' % (w,))
            must_raise(ctx, lambda: ce.BoundedVariable('a', None, data(w, 1), nom), 'upper bound of shape %s' % (w,))


def run_share(scn, ctx):
    """Two objects from the same values; overwriting one leaves the other and the values alone."""
    s = tuple(scn['shape'])
    e = cs.MX.sym('x', *s)
    for given in itertools.product((False, True), repeat=3):
        for var in (False, True):
            if var and not given[2]:
                continue
            v = [data(s, 10 + 100 * k) if g else None for k, g in enumerate(given)]
            orig = [None if x is None else cs.DM(x) for x in v]
            mk = (lambda: ce.BoundedVariable('a', *v)) if var else (lambda: ce.Inequality(e, *v))
            a, b = mk(), mk()
            for k in range(3):
                if a[1 + k] is not None:
                    for i in range(s[0]):
                        for j in range(s[1]):
                            a[1 + k][i, j] = -77.5
                            ctx.step()
            check(ctx, b, b.expr, *orig, what='the other object')
            for x, o in zip(v, orig):
                ctx.expect(x is None or same(x, o), 'the given values are changed')
            c = mk()
            check(ctx, c, c.expr, *orig, what='a later object')
            ctx.state((given, var))
            # changing the given values afterwards does not reach the object
            for k in range(3):
                if v[k] is not None:
                    for i in range(s[0]):
                        for j in range(s[1]):
                            v[k][i, j] = 55.5
            check(ctx, c, c.expr, *orig, what='an object whose given values are overwritten later')
