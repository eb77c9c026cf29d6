"""C04: casting data to a structure puts every value into its own field."""
import itertools
import casadi as cs
import numpy as np
import casadi_extras.structure3 as ce
import flavours as F
import refstruct as R
import refwrite as RW
from c01 import must_raise
from c02 import chain
from decls import S, E, K, KINDS, LARGE, INNER, INNER_R, SP, singles, inside, pairs, groups

BOUNDS = {
    'quick': 'structures of one entry over 32 kinds, all pairs over 16 kinds, triples over 8 kinds, groups and orders, pairs over 6 kinds inside a nested structure, 11 larger ones (12 entries, repeats of rank 4, up to 13 repetitions, nesting depth 5, groups of 5, shape 11 x 12); cast through a plain, symSX and symMX declaration; nothing, scalars of 5 types, vectors in 13 representations (DM, list, tuple, numpy, other structures, SX, MX), all wrong lengths in [0, 2n+1] and wrong orientations; dicts in every key order (more than 5 keys: all rotations, reversed too) with exact, scalar, list, numpy and nested values, every subset of missing keys (more than 5 keys: one, two, all but one, all), extra keys, every value once of wrong shape; matrices with 1 to 3 columns split per field, heights 0 to n+2',
    'thorough': 'as quick',
}
ASSUMPTIONS = ['parseMatrix is covered for fields without repetition']

KS = ['scalar', 'vec3', 'mat23', 'sparse', 'rep2', 'rep3v', 'rep22', 'nest', 'nest2', 'shs']
KT = KS + ['row', 'rep0', 'rep23m', 'nestsp', 'deep', 'zero']


def scenarios(tier):
    ds = [S()] + singles([k for k in KINDS if 'symm' not in k and k != 'nestsym'])
    ds += pairs(KT)
    for a, b, c in itertools.product(KS[:8], repeat=3):
        ds.append(S(K(a, 'a'), K(b, 'b'), K(c, 'c')))
    for a, b in itertools.product(['rep2', 'rep3v', 'scalar', 'nest2'], repeat=2):
        ds.append(S((K(a, 'a'), K(b, 'b')), K('vec3', 'c')))
        ds.append(S(K(a, 'a'), K(b, 'b'), K('vec3', 'c'), o=['c', 'a', 'b']))
    ds += inside(['scalar', 'row', 'mat23', 'sparse', 'rep2', 'nest'])
    ds += LARGE
    out = []
    for d in ds:
        for kind in ('struct', 'struct_symSX', 'struct_symMX'):
            for what in ('scalar', 'vector', 'dict', 'matrix'):
                out.append({'decl': d, 'kind': kind, 'what': what})
    return out


def check_fields(ctx, r, ref, flat, what, evalf=None):
    """r has the declaration of ref and holds flat."""
    ctx.step()
    ctx.expect(r.size == ref.size and list(r.keys()) == ref.keys, lambda: '%s: declaration changed' % what)
    mats, exps = [r.cat], [cs.DM(flat) if flat else cs.DM(0, 1)]
    for w in [list(c) for c, m in ref.slots] + [[n] for n in ref.keys]:
        got, exp = R.flatten(r[tuple(w)]), R.flatten(ref.read(w))
        ctx.expect(len(got) == len(exp), lambda: '%s: %s reads %s' % (what, w, got))
        mats += got
        exps += [R.values_of(x, flat) for x in exp]
    vals = evalf(mats) if evalf else mats
    for v, e in zip(vals, exps):
        if e.numel() == 0:
            continue
        ctx.expect(tuple(v.shape) == tuple(e.shape) and same(v, e), lambda: '%s: got %s instead of %s' % (what, v, e))


def same(v, e):
    return bool(np.array_equal(cs.DM(v).full(), cs.DM(e).full(), equal_nan=True))


def run(scn, ctx):
    ref = R.RStruct(scn['decl'])
    s = R.real_struct(scn['decl'], ce, scn['kind'])
    globals()['run_' + scn['what']](scn, ctx, ref, s)
    ctx.state(scn['what'])
    ctx.trace()


def run_scalar(scn, ctx, ref, s):
    n = ref.size
    check_fields(ctx, s(), ref, [0.0] * n, 'cast of nothing')
    for v, d in ((0, 0.0), (3, 3.0), (2.5, 2.5), (np.float64(-1.5), -1.5), (cs.DM(4.25), 4.25), (True, 1.0), ([7.5], 7.5), (np.array(5), 5.0)):
        if n == 0:
            continue
        check_fields(ctx, s(v), ref, [d] * n, 'cast of the scalar %r' % (v,))
    a, b = s(1.5), s(1.5)
    if n:
        check_fields(ctx, a, ref, [1.5] * n, 'first of two casts')
        b.cat[0] = 9.0
        check_fields(ctx, a, ref, [1.5] * n, 'first of two casts after a change of the second')
        check_fields(ctx, s(), ref, [0.0] * n, 'cast of nothing')


def run_vector(scn, ctx, ref, s):
    n = ref.size
    flat = F.tags(n)
    if n:
        other = ce.struct([ce.entry('z', shape=n)])
        for name, v in (
                ('DM', cs.DM(flat)), ('list', list(flat)), ('tuple', tuple(flat)), ('numpy', np.array(flat)),
                ('numpy column', np.array(flat).reshape(n, 1)), ('list of lists', [[x] for x in flat]),
                ('structure', s(cs.DM(flat))), ('other structure', other(cs.DM(flat)))):
            check_fields(ctx, s(v), ref, flat, 'cast of %s' % name)
        special = [(np.inf, -np.inf, 0.0, 1e-300, -1 / 3., 1e300)[k % 6] for k in range(n)]
        for v in (cs.DM(special), special, np.array(special)):
            check_fields(ctx, s(v), ref, special, 'cast of special values')
        ints = [int(7 * k + 3) for k in range(n)]
        check_fields(ctx, s(np.array(ints)), ref, [float(x) for x in ints], 'cast of integers')
        check_fields(ctx, s(ints), ref, [float(x) for x in ints], 'cast of integers')
        check_fields(ctx, s(cs.DM(n, 1)), ref, [0.0] * n, 'cast of a sparse column')
        for T in (cs.SX, cs.MX):
            x = T.sym('x', n)
            ev = lambda mats: cs.Function('f', [x], [T(m) for m in mats]).call([cs.DM(flat)])
            check_fields(ctx, s(T(x)), ref, flat, 'cast of %s' % T.__name__, ev)
            e = 2 * x[::-1] + 1
            check_fields(ctx, s(e), ref, [2 * v + 1 for v in flat[::-1]], 'cast of an expression in %s' % T.__name__, ev)
        for kind in ('struct_symSX', 'struct_symMX'):
            o = getattr(ce, kind)([ce.entry('z', shape=n)])
            ev = lambda mats: cs.Function('f', [o.cat], [type(o.cat)(m) for m in mats]).call([cs.DM(flat)])
            check_fields(ctx, s(o), ref, flat, 'cast of a %s' % kind, ev)
            o = R.real_struct(scn['decl'], ce, kind)
            ev = lambda mats: cs.Function('f', [o.cat], [type(o.cat)(m) for m in mats]).call([cs.DM(flat)])
            check_fields(ctx, s(o), ref, flat, 'cast of a %s' % kind, ev)
    for m in range(0, 2 * n + 2):
        if m in (n, 1):
            continue
        vals = F.tags(m)
        must_raise(ctx, lambda: s(cs.DM(vals) if m else cs.DM(0, 1)), 'cast of %d values to a structure of size %d' % (m, n))
        must_raise(ctx, lambda: s(cs.SX.sym('x', m)), 'cast of %d SX to a structure of size %d' % (m, n))
        must_raise(ctx, lambda: s(cs.MX.sym('x', m)), 'cast of %d MX to a structure of size %d' % (m, n))
        if m:
            must_raise(ctx, lambda: s(vals), 'cast of %d values to a structure of size %d' % (m, n))
    if n > 1:
        must_raise(ctx, lambda: s(cs.DM(flat).T), 'cast of a row to a structure of size %d' % n)
        must_raise(ctx, lambda: s(cs.SX.sym('x', 1, n)), 'cast of a row to a structure of size %d' % n)
        must_raise(ctx, lambda: s(cs.MX.sym('x', 1, n)), 'cast of a row to a structure of size %d' % n)
        must_raise(ctx, lambda: s(cs.SX.sym('x')), 'cast of a symbol to a structure of size %d' % n)
        must_raise(ctx, lambda: s(cs.MX.sym('x')), 'cast of a symbol to a structure of size %d' % n)
    if n:
        for c in (2, 3):
            must_raise(ctx, lambda: s(cs.DM.ones(n, c)), 'cast of %d columns to a structure of size %d' % (c, n))
            must_raise(ctx, lambda: s(cs.MX.sym('x', n, c)), 'cast of %d columns to a structure of size %d' % (c, n))
            must_raise(ctx, lambda: s(cs.SX.sym('x', n, c)), 'cast of %d columns to a structure of size %d' % (c, n))
    must_raise(ctx, lambda: s(None), 'cast of None')
    must_raise(ctx, lambda: s('abc'), 'cast of a string')


def run_dict(scn, ctx, ref, s):
    ks = ref.keys
    v = RW.Vals(100)
    start = [float('nan')] * ref.size
    for mode in ('exact', 'scalar', 'numpy', 'list'):
        data = {}
        for k in ks:
            read = ref.read([k])
            if mode == 'exact':
                data[k] = RW.build(read, v, 'm')
            elif mode == 'scalar':
                data[k] = v.next()
            else:
                data[k] = convert(RW.build(read, v, 'm'), mode)
        flat = start
        for k in ks:
            flat = RW.Writer(ref).write(flat, [k], data[k])[0]
        for perm in orders(ks):
            d = {k: RW.real(data[k], ce, lambda m: m) for k in perm}
            r = s(d)
            ctx.expect(isinstance(r.cat, cs.DM), 'cast of a dict is not numeric')
            check_fields(ctx, r, ref, flat, 'cast of %s in the order %s' % (data, perm))
    full = {k: RW.real(RW.build(ref.read([k]), v, 'm'), ce, lambda m: m) for k in ks}
    for n in range(len(ks)) if len(ks) < 6 else (0, 1, len(ks) - 2, len(ks) - 1):
        for sub in itertools.combinations(ks, n):
            must_raise(ctx, lambda: s({k: full[k] for k in sub}), 'cast of a dict with only the keys %s' % (sub,))
            must_raise(ctx, lambda: s(dict({k: full[k] for k in sub}, zz=1.0)), 'cast of a dict with the keys %s and zz' % (sub,))
    must_raise(ctx, lambda: s(dict(full, zz=1.0)), 'cast of a dict with an unknown key')
    for k in ks:
        read = ref.read([k])
        for bad in wrong(read, v):
            d = dict(full)
            d[k] = RW.real(bad, ce, lambda m: m)
            must_raise(ctx, lambda: s(d), 'cast of a dict whose %s is %s' % (k, bad))


def orders(ks):
    """All orders; for many keys all rotations, each also reversed."""
    if len(ks) < 6:
        return list(itertools.permutations(ks))
    rot = [tuple(ks[k:] + ks[:k]) for k in range(len(ks))]
    return rot + [r[::-1] for r in rot]


def wrong(read, v):
    leaf = R.flatten(read)[0] if R.flatten(read) else None
    if leaf is None or leaf.numel() == 0:
        return []
    r, c = leaf.shape
    bad = [v.mat(r + 1, c), v.mat(r, c + 1), v.mat(r + 1, c + 2)]
    bad = [b for b in bad if len(b['m']) * len(b['m'][0]) > 1]
    if r * c > 1 and min(r, c) > 1:
        bad.append(v.mat(r * c, 1))
    if isinstance(read, list):
        return [{'l': RW.build(read, v, 'm')['l'][:-1]}] + bad
    return bad


def convert(p, mode):
    if not isinstance(p, dict):
        return p
    if 'l' in p:
        return {'l': [convert(x, mode) for x in p['l']]}
    if mode == 'numpy':
        return {'np': p['m']}
    if len(p['m'][0]) == 1:
        return {'l': [r[0] for r in p['m']]}
    return p


def run_matrix(scn, ctx, ref, s):
    n = ref.size
    if n == 0 or any(e.dims for e in ref.entries.values()):
        return
    for c in (1, 2, 3):
        vals = F.tags(n * c)
        cols = [vals[k * n:(k + 1) * n] for k in range(c)]
        A = np.array(cols).T
        for name, data in (('numpy', A), ('DM', cs.DM(A)), ('list', A.tolist()), ('fortran', np.asfortranarray(A))):
            r = s.parseMatrix(data)
            ctx.step()
            ctx.expect(sorted(r.keys()) == sorted(ref.keys), lambda: 'keys %s' % (r.keys(),))
            for k in ref.keys:
                exp = cs.horzcat(*[R.values_of(ref.read([k]), col) for col in cols])
                got = cs.DM(r[k])
                ctx.expect(tuple(got.shape) == tuple(exp.shape) and (exp.numel() == 0 or same(got, exp)),
                           lambda: 'field %s of a %s matrix with %d columns is %s instead of %s' % (k, name, c, got, exp))
        for h in range(0, n + 3):
            if h != n:
                must_raise(ctx, lambda: s.parseMatrix(np.ones((h, c))), 'matrix of height %d split by a structure of size %d' % (h, n))
    if n > 1:
        must_raise(ctx, lambda: s.parseMatrix(np.ones((3, n))), 'transposed matrix') if n != 3 else None
