"""C08: expression structures always equal the concatenation of their parts."""
import itertools
import casadi as cs
import casadi_extras.structure3 as ce
import flavours as F
import refstruct as R
from c01 import must_raise
from c02 import chain
from c03 import compare
from decls import S, E, K, KINDS, LARGE, INNER, INNER_R, INNER_SP, DEEP, SP, SPL, singles, inside, pairs

BOUNDS = {
    'quick': 'construction: every declaration of 1 entry (29 kinds), 2 entries (14 kinds squared), groups and 3 entries (10 kinds), pairs over 6 kinds inside a nested structure, and the larger declarations of C01 x struct_MX, struct_SX, struct_MX_mutable with expressions, constants and symbols as parts; purely symbolic: the same declarations x symSX, symMX, and every combination of up to 3 entries with own or supplied symbols (column, row, matrix, sparse, structured of 3 and 10 elements); part-by-part filling of struct_MX / struct_SX / struct_MX_mutable made from a declaration: all sequences of 5 operations (struct_SX, struct_MX_mutable: 4) over 12 operations (two expressions per part, list and broadcast writes, rejected writes, reads in between) for 3 declarations; rejected kinds, shapes and sparsities',
    'thorough': 'as quick',
}

KIN = [k for k in KINDS if 'symm' not in k and k != 'nestsym' and k not in ('rep0', 'zero', 'zerocol')]
K12 = ['scalar', 'vec3', 'mat23', 'sparse', 'row', 'rep2', 'rep3v', 'rep22', 'nest', 'nest2', 'rep2sp', 'nestsp', 'nonz1', 'nonz']
FILL = {
    'flat': S(E('a', sh=2), E('b', sh=[2, 2]), E('c')),
    'rep': S(E('a', rep=2, sh=2), E('c', sh=SP)),
    'nest': S((E('n', st=INNER, rep=2), E('a', rep=2)), E('b')),
}


def scenarios(tier):
    out = [{'do': 'reject', 'what': k} for k in sorted(REJ)]
    ds = singles(KIN) + pairs(K12)
    ks = K12[:10]
    for a, b, c in itertools.product(ks, repeat=3):
        ds.append(S(K(a, 'a'), K(b, 'b'), K(c, 'c')))
        ds.append(S((K(a, 'a'), K(b, 'b')), K(c, 'c')))
    ds += inside(['scalar', 'row', 'mat23', 'sparse', 'rep2', 'nest'])
    ds += [d for d in LARGE if F.expr_ok(d)]
    for d in ds:
        for kind in ('struct_MX', 'struct_SX', 'struct_MX_mutable'):
            out.append({'do': 'expr', 'decl': d, 'kind': kind})
        for kind in ('struct_symSX', 'struct_symMX'):
            out.append({'do': 'sym', 'decl': d, 'kind': kind})
    for n in (1, 2, 3):
        for c in itertools.product(range(len(SYMS)), repeat=n):
            out.append({'do': 'supplied', 'combo': list(c)})
    n = 12
    for name in FILL:
        for a, b in itertools.product(range(n), repeat=2):
            for kind, depth in (('struct_MX', 5), ('struct_SX', 4), ('struct_MX_mutable', 4)):
                out.append({'do': 'fill', 'decl': name, 'kind': kind, 'first': [a, b], 'depth': depth})
    return out


def run(scn, ctx):
    globals()['run_' + scn['do']](scn, ctx)
    ctx.state(scn['do'])
    ctx.trace()


def make_expr(T, x, k, sp, style):
    """The k-th part: an expression of x with pattern sp."""
    n = sp.nnz()
    v = cs.vertcat(*[cs.sin(x[(k + i) % 5]) * (k + 1) + 3 * i for i in range(n)]) if n else T(0, 1)
    if style == 'const':
        return cs.DM(sp, [100.5 + 10 * k + i for i in range(n)])
    if style == 'plain' and n:
        v = cs.vertcat(*[x[(2 * k + i) % 5] for i in range(n)])
    return T(sp, v)


def parts(ref, T, x):
    """Per entry nested list of expressions; and per top-level slot the expression."""
    exprs, slot = {}, {}
    k = [0]
    for n in ref.keys:
        e = ref.entries[n]

        def rec(dims, idx):
            if dims:
                return [rec(dims[1:], idx + (i,)) for i in range(dims[0])]
            can = (n,) + idx
            sp = cs.Sparsity.dense(e.sub.size, 1) if e.sub is not None else ref.pos[can].sparsity()
            ex = make_expr(T, x, k[0], sp, ('expr', 'plain', 'const')[k[0] % 3])
            k[0] += 1
            slot[can] = ex
            return ex
        exprs[n] = rec(e.dims, ())
    return exprs, slot


def top_slots(ref):
    """Top-level parts in layout order."""
    out = []
    for can, m in ref.slots:
        n = 1 + len(ref.entries[can[0]].dims)
        if can[:n] not in out:
            out.append(can[:n])
    return out


def expected_flat(ref, slot, T):
    """Scatter the nonzeros of every part to the positions of the layout."""
    out = [None] * ref.size
    for can, ex in slot.items():
        e = ref.entries[can[0]]
        pos = ref.whole(can) if e.sub is not None else ref.pos[can]
        for j, p in enumerate(pos.nonzeros()):
            out[int(p)] = T(ex).nz[j] if T is cs.SX else cs.MX(ex).nz[j]
    return cs.vertcat(*out)


def evaluate(ctx, x, pairs):
    """pairs: (got, expected, what), all functions of x."""
    T = type(x)
    f = cs.Function('f', [x], [T(a) for a, b, w in pairs] + [T(b) for a, b, w in pairs])
    for point in ([0.3, -1.2, 2.5, 0.7, 4.1], [1.5, 0.2, -0.4, 3.3, -2.2]):
        r = f.call([cs.DM(point)])
        n = len(pairs)
        for k, (a, b, w) in enumerate(pairs):
            ctx.expect(tuple(r[k].shape) == tuple(r[n + k].shape), lambda: '%s: shape %s instead of %s' % (w, r[k].shape, r[n + k].shape))
            ctx.expect(r[k].full().tolist() == r[n + k].full().tolist(), lambda: '%s: %s instead of %s' % (w, r[k], r[n + k]))


def run_expr(scn, ctx):
    ref = R.RStruct(scn['decl'])
    T = cs.SX if scn['kind'] == 'struct_SX' else cs.MX
    x = T.sym('x', 5)
    exprs, slot = parts(ref, T, x)
    s = getattr(ce, scn['kind'])(F.expr_decl(scn['decl'], ce, exprs))
    ctx.step()
    ctx.expect(s.size == ref.size and list(s.keys()) == ref.keys, 'size %s, keys %s' % (s.size, s.keys()))
    ctx.expect(tuple(s.cat.shape) == (ref.size, 1), lambda: 'flat vector of shape %s' % (s.cat.shape,))
    todo = [(s.cat, expected_flat(ref, slot, T), 'the flat vector')]
    for can, ex in slot.items():
        got = s[can]
        ctx.expect(got.sparsity() == ex.sparsity(), lambda: '%s has pattern %s' % (can, got))
        todo.append((got, ex, 'reading %s' % (can,)))
    flat = expected_flat(ref, slot, T)
    for can, m in ref.slots:
        if m.sp.nnz() == 0:
            continue
        got = s[can]
        ctx.expect(got.sparsity() == m.sp, lambda: '%s has pattern %s' % (can, got))
        todo.append((got, T(m.sp, flat[[int(k) for k in ref.pos[can].nonzeros()]]), 'reading %s' % (can,)))
    evaluate(ctx, x, todo)
    conv = T(s)
    evaluate(ctx, x, [(conv, flat, 'the structure as a matrix')])
    ctx.outcome(ref.size)


def run_sym(scn, ctx):
    ref = R.RStruct(scn['decl'])
    s = R.real_struct(scn['decl'], ce, scn['kind'])
    T = cs.SX if scn['kind'] == 'struct_symSX' else cs.MX
    ctx.step()
    ctx.expect(s.cat.is_valid_input() and tuple(s.cat.shape) == (ref.size, 1), 'not a valid input: %s' % s.cat)
    flat = cs.DM(F.tags(ref.size))
    outs = [s[can] for can, m in ref.slots]
    if T is cs.SX:
        names = [x.name() for x in cs.symvar(s.cat)]
        ctx.expect(len(cs.symvar(s.cat)) == ref.size, 'symbols are shared: %s' % names)
    f = cs.Function('f', [s], outs)     # the structure itself is the argument
    ctx.expect(f.size1_in(0) == ref.size, 'input of size %d' % f.size1_in(0))
    for (can, m), v in zip(ref.slots, f.call([flat])):
        compare(ctx, v, R.values_of(ref.pos[can], flat.nonzeros()), 'field %s' % (can,))
        ctx.expect(v.sparsity() == m.sp, 'field %s has pattern %s' % (can, v))
    J = cs.Function('J', [s.cat], [cs.jacobian(cs.vertcat(*[cs.vec(o.nz[:]) if m.sp.nnz() else T(0, 1) for o, (can, m) in zip(outs, ref.slots)]), s.cat)])
    ctx.expect(cs.DM(J(flat)).full().tolist() == cs.DM.eye(ref.size).full().tolist(), 'the fields do not partition the symbol')
    if T is cs.MX:
        ctx.expect(s.is_valid_input() and s.is_dense() and s.is_column() and s.numel() == ref.size, 'input predicates')


SYMS = ['own scalar', 'own vector', 'col', 'mat', 'sparse', 'struct', 'scalar', 'own repeat', 'row', 'large struct']


def run_supplied(scn, ctx):
    items, given = [], []
    decl = []
    for k, c in enumerate(scn['combo']):
        kind, n = SYMS[c], 'e%d' % k
        if kind == 'own scalar':
            items.append(ce.entry(n))
            decl.append(E(n))
        elif kind == 'own vector':
            items.append(ce.entry(n, shape=2))
            decl.append(E(n, sh=2))
        elif kind == 'own repeat':
            items.append(ce.entry(n, repeat=2))
            decl.append(E(n, rep=2))
        elif kind in ('struct', 'large struct'):
            inner = INNER if kind == 'struct' else DEEP
            y = R.real_struct(inner, ce, 'struct_symSX')
            items.append(ce.entry(n, sym=y))
            decl.append(E(n, st=inner))
            given.append((n, y.cat))
        else:
            sp = {'col': cs.Sparsity.dense(2, 1), 'mat': cs.Sparsity.dense(2, 2), 'sparse': cs.Sparsity.triplet(2, 2, [0, 1], [0, 1]), 'scalar': cs.Sparsity.dense(1, 1), 'row': cs.Sparsity.dense(1, 5)}[kind]
            y = cs.SX.sym('y%d' % k, sp)
            items.append(ce.entry(n, sym=y))
            decl.append(E(n, sh={'sp': [sp.size1(), sp.size2(), [[i, j] for i, j in zip(sp.row(), sp.get_col())]]}))
            given.append((n, y))
    s = ce.struct_symSX(items)
    ref = R.RStruct(S(*decl))
    ctx.step()
    ctx.expect(s.size == ref.size and tuple(s.cat.shape) == (ref.size, 1), 'size %s' % s.size)
    ctx.expect(s.cat.is_valid_input() and len(cs.symvar(s.cat)) == ref.size, 'not purely symbolic: %s' % s.cat)
    flat = F.tags(ref.size)
    f = cs.Function('f', [s.cat], [s[n] for n, y in given] + [y for n, y in given] + [s[can] for can, m in ref.slots])
    r = f.call([cs.DM(flat)])
    for k, (n, y) in enumerate(given):
        exp = R.values_of(ref.read([n]), flat)
        compare(ctx, r[k], exp, 'field %s' % n)
        ctx.expect(tuple(s[n].shape) == tuple(y.shape), 'field %s has shape %s' % (n, s[n].shape))
        a, b = r[len(given) + k], exp
        ctx.expect(list(a.nonzeros()) == list(b.nonzeros()), lambda: 'the symbol given for %s is at %s instead of %s' % (n, a, b))
    for (can, m), v in zip(ref.slots, r[2 * len(given):]):
        compare(ctx, v, R.values_of(ref.pos[can], flat), 'field %s' % (can,))


def fill_ops(name, ref, T, x):
    """(word, value or nested list, accepted) per operation; values are new expressions."""
    def ex(k, r, c=1, sp=None):
        return make_expr(T, x, k, sp or cs.Sparsity.dense(r, c), 'expr')
    inner = cs.Sparsity.dense(3, 1)
    sps = R.shape_sparsity(SP)
    if name == 'flat':
        return [(('a',), ex(0, 2)), (('a',), ex(1, 2)), (('b',), ex(2, 2, 2)), (('b',), ex(3, 2, 2)), (('c',), ex(4, 1)), (('c',), ex(5, 1)),
                (('a',), ex(6, 3)), (('b',), ex(7, 2, 3)), (({},), {'a': ex(8, 2), 'c': ex(9, 1)}), ((Ellipsis,), [ex(10, 2), ex(11, 2, 2), ex(12, 1)]),
                (('c',), ex(13, 2)), 'read']
    if name == 'rep':
        return [(('a', 0), ex(0, 2)), (('a', 1), ex(1, 2)), (('a', -1), ex(2, 2)), (('a',), [ex(3, 2), ex(4, 2)]), (('a',), ex(5, 2)), (('c',), ex(6, 0, sp=sps)),
                (('c',), ex(7, 0, sp=sps)), (('c',), ex(8, 2, 3)) if T is cs.MX else (('c',), ex(8, 3, 2)), (('a', slice(None)), ce.repeated(ex(9, 2))), (('a', 2), ex(10, 2)),
                (('a', [1, 0]), [ex(11, 2), ex(12, 2)]), 'read']
    return [(('n', 0), ex(0, 0, sp=inner)), (('n', 1), ex(1, 0, sp=inner)), (('n',), [ex(2, 0, sp=inner), ex(3, 0, sp=inner)]), (('a', 0), ex(4, 1)),
            (('a',), [ex(5, 1), ex(6, 1)]), (('b',), ex(7, 1)), (('b',), ex(8, 1)), (('n', 0), ex(9, 2)), (('a',), ex(10, 1)), (('zz',), ex(11, 1)),
            (({'a', 'b'},), ex(12, 1)), 'read']


def apply(ref, slot, word, value, T, kind):
    """Reference: parts after the write, or None when it is rejected."""
    new = dict(slot)

    def put(can, v):
        if can not in tops:
            raise R.Bad('no such part')
        e = ref.entries[can[0]]
        sp = cs.Sparsity.dense(e.sub.size, 1) if e.sub is not None else ref.pos[can].sparsity()
        if sp != v.sparsity() and not (kind != 'struct_MX' and sp.size() == v.sparsity().size()):
            raise R.Bad('shape')
        new[can] = v if sp == v.sparsity() else cs.project(v, sp)
    tops = top_slots(ref)

    def entry(n, rest, v):
        if n not in ref.entries:
            raise R.Bad('name')
        dims = ref.entries[n].dims
        if not dims:
            return put((n,), v)
        s = dims[0]
        t = rest[0] if rest else slice(None)
        if isinstance(t, int):
            return put((n, R.norm(t, s)), v)
        ids = list(range(*t.indices(s))) if isinstance(t, slice) else t
        for k, i in enumerate(ids):
            put((n, i), v[k] if isinstance(v, list) else v.e if isinstance(v, ce.Repeater) else v)
    t = word[0]
    if t is Ellipsis:
        for k, n in enumerate(ref.keys):
            entry(n, word[1:], value[k])
    elif isinstance(t, dict):
        for n, v in value.items():
            entry(n, word[1:], v)
    elif isinstance(t, set):
        for n in t:
            entry(n, word[1:], value)
    else:
        entry(t, word[1:], value)
    return new


def run_fill(scn, ctx):
    decl = FILL[scn['decl']]
    ref = R.RStruct(decl)
    kind = scn['kind']
    T = cs.SX if kind == 'struct_SX' else cs.MX
    x = T.sym('x', 5)
    ops = fill_ops(scn['decl'], ref, T, x)
    tops = top_slots(ref)
    base = R.real_struct(decl, ce, 'struct')
    nan = T(cs.DM.nan(ref.size, 1))
    todo = []
    for rest in itertools.product(range(len(ops)), repeat=scn['depth'] - 2):
        path = scn['first'] + list(rest)
        ctx.history = [str(ops[k] if ops[k] == 'read' else ops[k][0]) for k in path]
        s = getattr(ce, kind)(base)
        slot = {}

        def judge(tag):
            if kind == 'struct_MX' and len(slot) < len(tops):
                must_raise(ctx, lambda: s.cat, 'flat vector of an incomplete structure')
                must_raise(ctx, lambda: s[tops[0]], 'read of an incomplete structure')
                return
            if kind == 'struct_MX' or len(slot) == len(tops):
                flat = expected_flat(ref, slot, T)
            else:
                v = [nan[0]] * ref.size
                for can, ex in slot.items():
                    pos = ref.whole(can) if ref.entries[can[0]].sub is not None else ref.pos[can]
                    for j, p in enumerate(pos.nonzeros()):
                        v[int(p)] = ex.nz[j]
                flat = cs.vertcat(*v)
            w = '%s after %s' % (tag, ctx.history)
            todo.append((T(s.cat), flat, w))
            for can in tops[-1:]:
                if can in slot:
                    todo.append((T(s[can]), slot[can], w + ', reading %s' % (can,)))
        for k in path:
            ctx.step()
            if ops[k] == 'read':
                judge('flat vector')
                continue
            word, value = ops[k]
            try:
                new = apply(ref, slot, word, value, T, kind)
            except R.Bad:
                new = None
            try:
                s[word] = value
                err = None
            except Exception as e:
                err = e
            if new is None:
                ctx.expect(err is not None, lambda: '%s = %s: accepted' % (word, value))
                ctx.outcome('raised')
            else:
                ctx.expect(err is None, lambda: '%s = %s: raised %s' % (word, value, chain(err)))
                slot = new
            ctx.state(tuple(sorted((c, str(e)) for c, e in slot.items())))
        judge('flat vector')
        ctx.trace()
        if len(todo) > 500:
            flush(ctx, x, todo)
            todo = []
    flush(ctx, x, todo)


def flush(ctx, x, todo):
    """Like evaluate, with nan standing for unset parts."""
    if not todo:
        return
    T = type(x)
    f = cs.Function('f', [x], [T(a) for a, b, w in todo] + [T(b) for a, b, w in todo])
    r = f.call([cs.DM([0.3, -1.2, 2.5, 0.7, 4.1])])
    n = len(todo)
    import numpy as np
    for k, (a, b, w) in enumerate(todo):
        ctx.expect(np.array_equal(r[k].full(), r[n + k].full(), equal_nan=True), lambda: '%s: %s instead of %s' % (w, r[k], r[n + k]))


X = cs.SX.sym('x', 2)
M = cs.MX.sym('m', 2)
SPD = cs.Sparsity.triplet(2, 2, [0, 1], [0, 1])


def _set(decl, kind, word, value):
    def f():
        s = getattr(ce, kind)(R.real_struct(decl, ce, 'struct'))
        s[word] = value
        return s.cat
    return f


REJ = {
    'symSX expr': lambda: ce.struct_symSX([ce.entry('a', expr=X)]),
    'symSX expr among others': lambda: ce.struct_symSX(['b', ce.entry('a', expr=X)]),
    'symMX expr': lambda: ce.struct_symMX([ce.entry('a', expr=M)]),
    'symMX sym': lambda: ce.struct_symMX([ce.entry('a', sym=X)]),
    'symMX sym among others': lambda: ce.struct_symMX(['b', ce.entry('a', sym=X)]),
    'MX no expr': lambda: ce.struct_MX(['a']),
    'MX some expr': lambda: ce.struct_MX([ce.entry('a', expr=M), 'b']),
    'MX some expr 2': lambda: ce.struct_MX(['b', ce.entry('a', expr=M)]),
    'SX no expr': lambda: ce.struct_SX(['a']),
    'SX some expr': lambda: ce.struct_SX([ce.entry('a', expr=X), 'b']),
    'mutable MX no expr': lambda: ce.struct_MX_mutable(['a']),
    'mutable MX some expr': lambda: ce.struct_MX_mutable([ce.entry('a', expr=M), ce.entry('b', shape=2)]),
    'MX shape in list': lambda: ce.struct_MX([ce.entry('a', expr=[M[0], M])]),
    'MX sparsity in list': lambda: ce.struct_MX([ce.entry('a', expr=[cs.MX(SPD, M), cs.MX.sym('q', 2, 2)])]),
    'SX shape in list': lambda: ce.struct_SX([ce.entry('a', expr=[X[0], X])]),
    'MX short list': lambda: ce.struct_MX([ce.entry('a', expr=[[M, M], [M]])]),
    'SX short list': lambda: ce.struct_SX([ce.entry('a', expr=[[X, X], [X]])]),
    'MX nested size': lambda: ce.struct_MX([ce.entry('a', expr=cs.MX.sym('q', 2), struct=R.real_struct(INNER, ce, 'struct'))]),
    'SX nested size': lambda: ce.struct_SX([ce.entry('a', expr=cs.SX.sym('q', 2), struct=R.real_struct(INNER, ce, 'struct'))]),
    'mutable nested size': lambda: ce.struct_MX_mutable([ce.entry('a', expr=cs.MX.sym('q', 2), struct=R.real_struct(INNER, ce, 'struct'))]),
    'symSX expression': lambda: ce.struct_symSX([ce.entry('a', sym=2 * X)]),
    'symSX partly symbolic': lambda: ce.struct_symSX(['b', ce.entry('a', sym=cs.vertcat(X[0], 1.5))]),
    'symSX number': lambda: ce.struct_symSX([ce.entry('a', sym=cs.SX(3))]),
    'symSX MX symbol': lambda: ce.struct_symSX([ce.entry('a', sym=M)]),
    'SX with MX': lambda: ce.struct_SX([ce.entry('a', expr=M)]),
    'MX incomplete': lambda: ce.struct_MX(R.real_struct(FILL['flat'], ce, 'struct')).cat,
    'MX longer': _set(S(E('a', sh=2)), 'struct_MX', 'a', cs.MX.sym('q', 3)),
    'MX shorter': _set(S(E('a', sh=2)), 'struct_MX', 'a', cs.MX.sym('q', 1)),
    'MX transposed': _set(S(E('a', sh=2)), 'struct_MX', 'a', cs.MX.sym('q', 1, 2)),
    'MX dense for sparse': _set(S(E('a', sh=SP)), 'struct_MX', 'a', cs.MX.sym('q', 2, 3)),
    'MX sparse for dense': _set(S(E('a', sh=[2, 2])), 'struct_MX', 'a', cs.MX(SPD, M)),
    'MX other sparsity': _set(S(E('a', sh=SP)), 'struct_MX', 'a', cs.MX(cs.Sparsity.triplet(2, 3, [0, 1, 1], [0, 1, 2]), cs.MX.sym('q', 3))),
    'MX number': _set(S(E('a', sh=2)), 'struct_MX', 'a', 3),
    'MX element': _set(S(E('a', sh=2)), 'struct_MX', ('a', 0), M[0]),
    'MX part of nested': _set(S(E('n', st=INNER)), 'struct_MX', ('n', 'p'), M[0]),
    'SX longer': _set(S(E('a', sh=2)), 'struct_SX', 'a', cs.SX.sym('q', 3)),
    'SX matrix': _set(S(E('a', sh=[2, 3])), 'struct_SX', 'a', cs.SX.sym('q', 3, 2)),
    'mutable longer': _set(S(E('a', sh=2)), 'struct_MX_mutable', 'a', cs.MX.sym('q', 3)),
}


def run_reject(scn, ctx):
    must_raise(ctx, REJ[scn['what']], scn['what'])
