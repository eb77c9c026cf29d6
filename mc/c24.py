"""C24: concatenated inequalities keep each bound attached to its expression."""
import itertools
import numpy as np
import casadi as cs
import casadi_extras as ce
from casadi_extras.inequality import vertcat

BOUNDS = {
    'quick': 'every sequence of 0 to 5 inequalities out of 8 kinds (scalar, columns, empty, structured, bounded variables, omitted bounds) with nominal values and of 1 to 4 out of 6 without, and 32 of each for 8, 11 and 16 inequalities, as list, tuple and dict; SX and MX; row and matrix parts in dicts and of equal width in lists; every grouping of 3 and 4 into nested list and dict concatenations; every history of 4 concatenations over a growing pool; operands compared afterwards and results overwritten',
    'thorough': 'as quick',
}
KINDS = ['scalar', 'col2', 'col3', 'empty', 'struct', 'var', 'onlylb', 'expr']
BARE = ['scalar', 'col2', 'empty', 'struct', 'onlylb', 'none']


def scenarios(tier):
    out = []
    for n in range(0, 6):
        for seq in itertools.product(KINDS, repeat=n):
            out.append({'do': 'flat', 'kinds': list(seq), 'nom': True})
        if n and n < 5:
            for seq in itertools.product(BARE, repeat=n):
                out.append({'do': 'flat', 'kinds': list(seq), 'nom': False})
    for n in (8, 11, 16):
        for k, step in itertools.product(range(8), (1, 3, 5, 7)):
            out.append({'do': 'flat', 'kinds': [KINDS[(k + step * i) % 8] for i in range(n)], 'nom': True})
            out.append({'do': 'flat', 'kinds': [BARE[(k + step * i) % 6] for i in range(n)], 'nom': False})
    for n in (1, 2, 3):
        for seq in itertools.product([(1, 1), (2, 2), (1, 2), (3, 2), (2, 1), (2, 3)], repeat=n):
            out.append({'do': 'matrix', 'shapes': [list(s) for s in seq]})
    for n in (3, 4):
        for seq in itertools.product(['scalar', 'col2', 'var', 'struct'], repeat=n):
            out.append({'do': 'nested', 'kinds': list(seq)})
    for n in (2, 3):
        for a in itertools.product(range(3), repeat=2):
            out.append({'do': 'history', 'first': list(a), 'depth': n + 1})
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.state(scn)
    ctx.trace()


class Part(object):
    """An inequality with what is expected of it: element -> (function, lb, ub, nominal)."""

    def __init__(self, kind, k, nom, T=cs.MX):
        n = {'scalar': 1, 'col2': 2, 'col3': 3, 'empty': 0, 'struct': 3, 'var': 2, 'onlylb': 2, 'expr': 2, 'none': 2}[kind]
        self.n = n
        b = 10.0 * (k + 1)
        # every order of the three values occurs, also empty intervals
        sg = -1 if k % 3 == 1 else 1
        lb, ub = [b - 3 * i for i in range(n)], [b + sg * (i % 2 * 2 - 1) * 100 + i for i in range(n)]
        no = [b + sg * 200 - i for i in range(n)] if nom else None
        if n > 1:
            ub[1], lb[-1] = lb[1], -1e20 / (3 + k)
        self.lb, self.ub, self.nom = lb, ub, no
        dm = lambda v: cs.DM(v) if v else cs.DM(0, 1)
        if kind == 'var' and nom:
            self.q = ce.BoundedVariable('v%d' % k, dm(lb), dm(ub), dm(no))
            self.syms = self.q.expr
        elif kind == 'struct' and T is cs.MX:
            s = ce.struct_symMX(['s%d' % k, ce.entry('t%d' % k, shape=2)])
            self.syms = s.cat
            self.q = ce.Inequality(s, s(dm(lb)), dm(ub), s(dm(no)) if nom else None)
        else:
            self.syms = T.sym('x%d' % k, n)
            e = 3 * self.syms + k if kind == 'expr' else self.syms
            kw = {}
            if kind != 'none':
                kw['lb'] = dm(lb)
            else:
                self.lb = [-np.inf] * n
            if kind not in ('none', 'onlylb'):
                kw['ub'] = dm(ub)
            else:
                self.ub = [np.inf] * n
            if nom:
                kw['nominal'] = dm(no)
            self.q = ce.Inequality(e, **kw)
        self.f = (lambda v: [3 * x + k for x in v]) if kind == 'expr' else (lambda v: list(v))
        self.vals = [0.5 + 7 * k + i for i in range(n)]

    def unchanged(self, ctx, what):
        for got, e in ((self.q.lb, self.lb), (self.q.ub, self.ub), (self.q.nominal, self.nom)):
            ok = got is None if e is None else [float(v) for v in cs.DM(got).full().reshape(-1)] == e
            ctx.expect(ok, lambda: 'operand changed by %s: %s' % (what, got))


def flat(v):
    return [float(x) for x in cs.DM(v).full().reshape(-1)]


def check(ctx, r, parts, what, nom=True, T=cs.MX):
    """r holds the parts in the given order."""
    lb, ub = sum((p.lb for p in parts), []), sum((p.ub for p in parts), [])
    no = sum((p.nom for p in parts), []) if nom else None
    ctx.step()
    ctx.expect(isinstance(r, ce.Inequality), '%s: %s' % (what, r))
    ctx.expect(r.numel() == len(lb), lambda: '%s: %s elements' % (what, r.numel()))
    ctx.expect(flat(r.lb) == lb, lambda: '%s: lower bounds %s instead of %s' % (what, flat(r.lb), lb))
    ctx.expect(flat(r.ub) == ub, lambda: '%s: upper bounds %s instead of %s' % (what, flat(r.ub), ub))
    if nom:
        ctx.expect(r.nominal is not None and flat(r.nominal) == no, lambda: '%s: nominal %s instead of %s' % (what, r.nominal, no))
    else:
        ctx.expect(r.nominal is None, lambda: '%s: nominal %s' % (what, r.nominal))
    ctx.expect(tuple(r.lb.shape) == tuple(r.expr.shape) == tuple(r.ub.shape), '%s: shapes' % what)
    if lb:
        uniq = list({id(p): p for p in parts}.values())
        f = cs.Function('f', [p.syms for p in uniq], [T(r.expr)])
        got = flat(f(*[cs.DM(p.vals) if p.n else cs.DM(0, 1) for p in uniq]))
        e = sum((p.f(p.vals) for p in parts), [])
        ctx.expect(got == e, lambda: '%s: expression evaluates to %s instead of %s' % (what, got, e))


def run_flat(scn, ctx):
    nom = scn['nom']
    parts = [Part(k, i, nom) for i, k in enumerate(scn['kinds'])]
    qs = [p.q for p in parts]
    for arg, w in ((list(qs), 'list'), (tuple(qs), 'tuple')):
        r = vertcat(arg)
        check(ctx, r, parts, w, nom or not parts)
    keys = ['k%d' % ((5 * i + 2) % (7 if len(parts) < 8 else 17)) for i in range(len(parts))]
    d = dict(zip(keys, qs))
    r2 = vertcat(d)
    check(ctx, r2, parts, 'dict', nom or not parts)
    for k, p in zip(keys, parts):
        for v, e, w in ((r2.lb, p.lb, 'lower bound'), (r2.ub, p.ub, 'upper bound'), (r2.nominal, p.nom, 'nominal')):
            if v is not None:
                ctx.expect(flat(v[k]) == e, lambda: '%s of %s: %s instead of %s' % (w, k, v[k], e))
        if p.n:
            got = flat(cs.Function('f', [p.syms], [cs.MX(r2.expr[k])])(cs.DM(p.vals)))
            ctx.expect(got == p.f(p.vals), lambda: 'expression %s: %s' % (k, got))
    ctx.expect(list(d) == keys and (not keys or list(r2.lb.keys()) == keys == list(r2.expr.keys())), 'keys')
    for p in parts:
        p.unchanged(ctx, 'concatenation')
    # results do not share state with the operands
    for i in range(r.numel()):
        r.lb[i] = -5.5
        r.ub[i] = -6.5
        if r.nominal is not None:
            r.nominal[i] = -7.5
    for p in parts:
        p.unchanged(ctx, 'writing to the result')
    if nom and 'struct' not in scn['kinds'] and 'var' not in scn['kinds'] and parts:
        sx = [Part(k, i, nom, cs.SX) for i, k in enumerate(scn['kinds'])]
        check(ctx, vertcat([p.q for p in sx]), sx, 'SX list', nom, cs.SX)
    ctx.outcome(scn['kinds'])


def run_matrix(scn, ctx):
    qs, vals, syms = [], [], []
    for k, s in enumerate(scn['shapes']):
        x = cs.MX.sym('x%d' % k, *s)
        m = np.arange(s[0] * s[1], dtype=float).reshape(s) + 10 * (k + 1)
        qs.append(ce.Inequality(2 * x, m, m + 100, m + 200))
        vals.append(m)
        syms.append(x)
    d = vertcat({'e%d' % k: q for k, q in enumerate(qs)})
    ctx.step()
    for v, off in ((d.lb, 0), (d.ub, 100), (d.nominal, 200)):
        e = np.concatenate([(m + off).T.reshape(-1) for m in vals])
        ctx.expect(flat(v.cat) == e.tolist(), lambda: 'dict: %s instead of %s' % (v.cat, e))
        for k, m in enumerate(vals):
            ctx.expect(np.array_equal(cs.DM(v['e%d' % k]).full(), m + off), lambda: 'part %d is %s' % (k, v['e%d' % k]))
    f = cs.Function('f', syms, [d.expr.cat] + [d.expr['e%d' % k] for k in range(len(qs))])
    r = f.call([cs.DM(m) for m in vals])
    ctx.expect(flat(r[0]) == (2 * np.concatenate([m.T.reshape(-1) for m in vals])).tolist(), 'dict: expression')
    for k, m in enumerate(vals):
        ctx.expect(np.array_equal(r[1 + k].full(), 2 * m), 'dict: part %d of the expression' % k)
    if len({s[1] for s in scn['shapes']}) == 1:
        c = vertcat(qs)
        ctx.step()
        for v, off in ((c.lb, 0), (c.ub, 100), (c.nominal, 200)):
            ctx.expect(np.array_equal(cs.DM(v).full(), np.vstack(vals) + off), lambda: 'list: %s' % v)
        g = cs.Function('g', syms, [c.expr])(*[cs.DM(m) for m in vals])
        ctx.expect(np.array_equal(g.full(), 2 * np.vstack(vals)), 'list: expression')


def groupings(n):
    """Ordered trees with leaves 0..n-1 where every inner node has at least two children or is a single."""
    def parts(lo, hi):
        if hi - lo == 1:
            yield lo
            yield [lo]
            return
        for cuts in itertools.product((0, 1), repeat=hi - lo - 1):
            if not any(cuts):
                continue
            idx = [lo] + [lo + k + 1 for k in range(hi - lo - 1) if cuts[k]] + [hi]
            for c in itertools.product(*[simple(a, b) for a, b in zip(idx, idx[1:])]):
                yield list(c)

    def simple(a, b):
        return [a] if b - a == 1 else list(parts(a, b))
    return [p for p in parts(0, n)]


def run_nested(scn, ctx):
    parts = [Part(k, i, True) for i, k in enumerate(scn['kinds'])]

    def build(tree, form, depth=0):
        if isinstance(tree, int):
            return parts[tree].q
        c = [build(t, form, depth + 1) for t in tree]
        if form == 'list' or (form == 'mixed' and depth % 2):
            return vertcat(c)
        return vertcat({'n%d' % k: q for k, q in enumerate(c)})
    for tree in groupings(len(parts)):
        for form in ('list', 'dict', 'mixed'):
            r = build(tree, form)
            check(ctx, r, parts, '%s of %s' % (form, tree))
            ctx.state((str(tree), form))
    for p in parts:
        p.unchanged(ctx, 'nested concatenation')


def run_history(scn, ctx):
    """A pool of inequalities grows by concatenations of its members; members never change."""

    def fresh():
        return [([p], p.q) for p in (Part(k, i, True) for i, k in enumerate(('scalar', 'var', 'struct')))]

    def explore(ops):
        pool = fresh()
        for (a, b, form) in ops:
            (pa, qa), (pb, qb) = pool[a], pool[b]
            r = vertcat([qa, qb]) if form == 0 else vertcat({'a': qa, 'b': qb})
            pool.append((pa + pb, r))
            ctx.step()
        for ps, q in pool[3:]:
            check(ctx, q, ps, 'history %s' % (ops,))
        for ps, q in pool[:3]:
            ps[0].unchanged(ctx, 'history %s' % (ops,))
        ctx.state(tuple(ops))
        ctx.trace()

    def rec(ops):
        if len(ops) == scn['depth']:
            explore(ops)
            return
        n = 3 + len(ops)
        for a, b, form in itertools.product(range(n), range(n), (0, 1)):
            # later steps use the newest member
            if len(ops) and n - 1 not in (a, b):
                continue
            rec(ops + [(a, b, form)])
    for form in (0, 1):
        rec([(scn['first'][0], scn['first'][1], form)])
