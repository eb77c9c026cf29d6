"""C06: symmetric entries always read as symmetric matrices."""
import itertools
import casadi as cs
import numpy as np
import casadi_extras.structure3 as ce
import flavours as F
import refstruct as R
import refwrite as RW
import words as W
from c01 import must_raise
from c02 import chain
from c03 import Batch, Obj
from decls import S, E, K

BOUNDS = {
    'quick': 'symmetric entries of order 1 to 4 (dense; 5 alone, 6 read only) and 3 (two sparse patterns), single, repeated, twice repeated, nested, grouped, between other entries; 5 flavours read with all trailing indices; DM, SX, MX written: every element by row/column and by linear index, every row, column and block over all ordered index subsets of up to 3 rows and columns, whole matrices in 4 representations, lists over repetitions, every wrong dimension; histories of 3 writes (DM) or 2 (SX, MX) over 9 operations',
    'thorough': 'order up to 5 (6 alone), histories one deeper',
}
ASSUMPTIONS = ['blocks which contain both (i,j) and (j,i) are written with consistent values']

ARROW = {'sp': [3, 3, [[0, 0], [1, 1], [2, 2], [0, 2], [2, 0], [1, 2], [2, 1]]]}
TRID = {'sp': [3, 3, [[0, 0], [1, 1], [2, 2], [0, 1], [1, 0], [1, 2], [2, 1]]]}
SHAPES = {'1': [1, 1], '2': [2, 2], '3': [3, 3], '4': [4, 4], '5': [5, 5], '6': [6, 6], 'arrow': ARROW, 'trid': TRID}


def sy(n, name='S', **k):
    return E(name, sh=SHAPES[n], ty='symm', **k)


def forms(n):
    return {
        'alone': (S(sy(n)), [['S']]),
        'between': (S(E('x'), sy(n), E('y', sh=2)), [['S']]),
        'repeat': (S(E('x'), sy(n, rep=2), E('y')), [['S', 0], ['S', 1]]),
        'repeat2': (S(sy(n, rep=[2, 2]), E('y')), [['S', 0, 1], ['S', 1, 0]]),
        'nested': (S(E('n', st=S(E('x'), sy(n)), rep=2), E('y')), [['n', 0, 'S'], ['n', 1, 'S']]),
        'group': (S((sy(n, rep=2), E('y', rep=2))), [['S', 0], ['S', 1]]),
        'two': (S(sy(n), sy('2', 'R')), [['S'], ['R']]),
    }


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for n in SHAPES:
        if n == '5' and not t:
            continue
        if n == '6':
            for f in ('alone', 'repeat'):
                out += [{'n': n, 'form': f, 'fl': fl, 'do': 'read'} for fl in ('DM', 'symSX', 'symMX')]
            out.append({'n': n if t else '5', 'form': 'alone', 'fl': 'DM', 'do': 'write'})
            continue
        for f in forms(n):
            if n in ('4', '5', 'trid') and f not in ('alone', 'between', 'repeat'):
                continue
            for fl in ('DM', 'SX', 'MX', 'symSX', 'symMX'):
                out.append({'n': n, 'form': f, 'fl': fl, 'do': 'read'})
            for fl in ('DM', 'SX', 'MX', 'struct_SX', 'struct_MX_mutable'):
                out.append({'n': n, 'form': f, 'fl': fl, 'do': 'write'})
                for k in range(9):
                    out.append({'n': n, 'form': f, 'fl': fl, 'do': 'hist', 'first': k, 'depth': (3 if fl == 'DM' else 2) + t})
    return out


def leaf_reads(ref, w):
    """Every way to read the symmetric entry at w: (word, positions)."""
    e = entry_at(ref, w)
    n = e.mat.sp.size1()
    alls = {'s': [None, None, None]}
    out = [[], [alls, alls], [{'f': 'T'}]]
    out += [[i, j] for i in range(n) for j in range(n)] + [[-1, 0], [0, -1]]
    out += [[i] for i in range(n * n)] + [[-1], [alls]]
    out += [[alls, i] for i in range(n)] + [[i, alls] for i in range(n)]
    if n > 1:
        out += [[[*range(k)] and {'l': list(range(k))}, {'l': list(range(n - k, n))}] for k in range(1, n)]
        out += [[{'s': [1, None, None]}, {'s': [None, 1, None]}], [{'s': [None, 1, None]}, {'s': [1, None, None]}]]
    return [(w + x, ref.read(w + x)) for x in out]


def entry_at(ref, w):
    st, e = ref, None
    for t in w:
        if isinstance(t, str):
            e = st.entries[t]
            st = e.sub
    return e


def others(ref):
    return [(list(c), ref.read(c)) for c, m in ref.slots if not m.symm]


def setup(scn):
    decl, locs = forms(scn['n'])[scn['form']]
    return decl, R.RStruct(decl), locs


def run(scn, ctx):
    decl, ref, locs = setup(scn)
    reads = [r for w in locs for r in leaf_reads(ref, w)] + others(ref)
    globals()['run_' + scn['do']](scn, ctx, decl, ref, locs, reads)


def new(scn, decl, ref, base, batch):
    if scn['fl'] in ('struct_SX', 'struct_MX_mutable'):
        return ExprObj(scn['fl'], decl, ref, batch)
    return Obj(scn['fl'], decl, ref, 0.0, base, batch)


class ExprObj(Obj):
    """Structures whose symmetric entries are given as full symmetric expressions."""

    def __init__(self, name, decl, ref, batch):
        self.ref = ref
        self.flat = F.tags(ref.size)
        self.batch = batch
        self.T = cs.SX if name == 'struct_SX' else cs.MX
        c = batch.cache.setdefault('expr', {})
        if 'exprs' not in c:
            ex, args, vals = F.expr_parts(ref, lambda nm, sp: self.T.sym(nm, sp), self.flat)
            c['exprs'] = ex, args, vals
        ex = dict(c['exprs'][0])
        for n, e in ref.entries.items():
            if e.mat is not None and e.mat.symm:
                ex[n] = R.rmap(cs.triu2symm, ex[n])
        self.s = getattr(ce, name)(F.expr_decl(decl, ce, ex))


def run_read(scn, ctx, decl, ref, locs, reads):
    flat = F.tags(ref.size)
    fl = F.build(scn['fl'], decl, ref, ce, flat)
    outs, exps = [], []
    for w, exp in reads:
        got = fl.obj[R.real_word(w, ce)]
        ctx.step()
        ctx.expect(R.skeleton(got) == R.skeleton(exp), lambda: '%s: got %s instead of the positions %s' % (w, got, exp))
        outs.append(got)
        exps.append(R.values_of(exp, flat))
        ctx.state(w)
    for v, e, (w, x) in zip(fl.eval(outs), exps, reads):
        ctx.expect(R.same_matrix(v, e), lambda: '%s: got %s instead of %s' % (w, v, e))
    for w in locs:
        n = entry_at(ref, w).mat.sp.size1()
        for bad in ([n, 0], [0, n], [n * n], [0, 0, 0]):
            must_raise(ctx, lambda: fl.obj[R.real_word(w + bad, ce)], 'read of %s' % (w + bad))
    ctx.trace()


def symval(pos, tag):
    """Values for a block: one value per stored element, so that mirrored ones agree."""
    sp = pos.sparsity()
    return sp, [tag + int(k) * 10.0 for k in pos.nonzeros()]


def block_payload(pos, tag):
    sp, v = symval(pos, tag)
    d = {}
    for r, c, x in zip(sp.row(), sp.get_col(), v):
        d[r, c] = x
    if sp.is_dense():
        return {'m': [[d[i, j] for j in range(pos.size2())] for i in range(pos.size1())]}
    return {'sp': [pos.size1(), pos.size2(), [[r, c, x] for (r, c), x in sorted(d.items())]]}


def real_payload(p, o=None):
    if isinstance(p, dict) and 'sp' in p:
        r, c, ijv = p['sp']
        ijv = sorted(ijv, key=lambda t: (t[1], t[0]))
        m = cs.DM(cs.Sparsity.triplet(r, c, [t[0] for t in ijv], [t[1] for t in ijv]), [t[2] for t in ijv])
        return o.leaf(m) if o else m
    return RW.real(p, ce, o.leaf if o else lambda m: m)


def attempt(ctx, o, w, p):
    what = 'write %s = %s' % (w, p)
    try:
        exp = RW.Writer(o.ref).write(o.flat, w, p)[0]
    except R.Bad:
        exp = None
    rp = {k: real_payload(v, o) for k, v in p['dict'].items()} if isinstance(p, dict) and 'dict' in p else \
        [real_payload(v, o) for v in p['l']] if isinstance(p, dict) and 'l' in p and isinstance(p['l'][0], dict) else real_payload(p, o)
    ctx.step()
    try:
        o.s[R.real_word(w, ce)] = rp
        err = None
    except Exception as e:
        err = e
    if exp is None:
        ctx.expect(err is not None, lambda: '%s: accepted' % what)
        ctx.outcome('raised')
        return False
    ctx.expect(err is None, lambda: '%s: raised %s' % (what, chain(err)))
    ctx.outcome('written')
    o.flat = exp
    return True


def writes(ref, w):
    e = entry_at(ref, w)
    n = e.mat.sp.size1()
    full = ref.read(w)
    alls = {'s': [None, None, None]}
    dense = e.mat.full.is_dense()
    out = [(w, 77.5), (w, block_payload(full, 0.5))]
    if dense:
        out += [(w, {'np': block_payload(full, 0.25)['m']})]
    for i in range(n):
        for j in range(n):
            out.append((w + [i, j], 50.5 + i + 10 * j))
            out.append((w + [i + n * j], 51.5 + i + 10 * j))
            if not dense and ref.read(w + [i, j]).nnz() == 0:
                continue
            out.append((w + [i, j], {'m': [[60.5 + i + 10 * j]]}))
            out.append((w + [i - n, j - n], {'m': [[61.5 + i + 10 * j]]}))
    subs = [[i] for i in range(n)] + [list(p) for k in (2, 3) if k <= n for p in itertools.permutations(range(n), k)]
    if n > 3:
        subs = [s for s in subs if len(s) < 3]
    for a in subs + [None]:
        for b in subs + [None]:
            ta = alls if a is None else {'l': a}
            tb = alls if b is None else {'l': b}
            x = w + [ta, tb]
            pos = ref.read(x)
            out.append((x, block_payload(pos, 0.75)))
            if len(a or []) < 3 and len(b or []) < 3:
                out.append((x, 70.5))
    for i in range(n):
        for x in (w + [alls, i], w + [i, alls]):
            out.append((x, block_payload(ref.read(x), 0.125)))
            out.append((x, 71.5))
    return out


def wrongs(ref, w):
    n = entry_at(ref, w).mat.sp.size1()
    v = RW.Vals(500)
    out = []
    for r in range(1, n + 3):
        for c in range(1, n + 3):
            if (r, c) not in ((n, n), (1, 1)):
                out.append((w, v.mat(r, c)))
    out += [(w + [n, 0], 1.5), (w + [0, n], 1.5), (w + [n * n], 1.5), (w + [0, 0], v.mat(2, 1)), (w + [0, 0], v.mat(1, 2)),
            (w + [{'s': [None, None, None]}, 0], v.mat(n + 1, 1)), (w + [0, {'s': [None, None, None]}], v.mat(1, n + 1)), (w + [0, 0, 0], 1.5)]
    if n > 1:
        out += [(w + [{'s': [None, None, None]}, 0], v.mat(n, n))]
    return out


def run_write(scn, ctx, decl, ref, locs, reads):
    base = R.real_struct(decl, ce, 'struct')
    batch = Batch()
    small = [(list(c), ref.read(c)) for c, m in ref.slots]
    alpha = [x for w in locs for x in writes(ref, w)]
    if len(locs) == 2:
        a, b = locs
        pl = {'l': [block_payload(ref.read(locs[0]), 0.5), block_payload(ref.read(locs[1]), 0.625)]}
        if scn['form'] in ('repeat', 'group'):
            alpha += [(['S'], pl), (['S'], 3.5), (['S', {'s': [None, None, None]}, 0, 0], 4.5), (['S', {'s': [None, None, None]}], block_payload(ref.read(a), 0.5)),
                      (['S', {'l': [1, 0]}], pl), ([{'d': 1}], {'dict': {'S': pl}})]
        if scn['form'] == 'nested':
            alpha += [(['n', {'s': [None, None, None]}, 'S'], pl), (['n', 1], {'m': [[900.5 + k] for k in range(ref.entries['n'].sub.size)]})]
        if scn['form'] == 'two':
            alpha += [([{'d': 1}], {'dict': {'S': pl['l'][0], 'R': pl['l'][1]}}), ([{'dots': 1}], pl)]
    for w, p in alpha:
        o = new(scn, decl, ref, base, batch)
        if attempt(ctx, o, w, p):
            o.check(ctx, 'after %s = %s' % (w, p), reads if scn['fl'] == 'DM' else small)
        ctx.state(tuple(o.flat))
        ctx.trace()
    for w, p in [x for w in locs for x in wrongs(ref, w)]:
        o = new(scn, decl, ref, base, batch)
        ctx.expect(not attempt(ctx, o, w, p), lambda: 'write %s = %s should be rejected' % (w, p))
        o.check(ctx, 'after the rejected %s = %s' % (w, p), small)
        ctx.trace()
    batch.flush(ctx)


def run_hist(scn, ctx, decl, ref, locs, reads):
    base = R.real_struct(decl, ce, 'struct')
    batch = Batch()
    a, b = locs[0], locs[-1]
    n = entry_at(ref, a).mat.sp.size1()
    q = n - 1
    alls = {'s': [None, None, None]}
    pb = block_payload
    rest = [(w, p) for w, p in others(ref)]
    ops = [(a, pb(ref.read(a), 0.5)), (a + [0, q], 301.5), (b + [q, 0], 302.5), (a + [alls, 0], pb(ref.read(a + [alls, 0]), 0.25)),
           (b + [0, alls], pb(ref.read(b + [0, alls]), 0.125)), (a + [q], 303.5), (b, 304.5),
           (rest[-1][0], 305.5) if rest else (a + [0, 0], 305.5), (a + [-1, -1], 306.5)]
    small = [(list(c), ref.read(c)) for c, m in ref.slots]
    for path in itertools.product(range(len(ops)), repeat=scn['depth'] - 1):
        path = (scn['first'],) + path
        ctx.history = [str(ops[k]) for k in path]
        o = new(scn, decl, ref, base, batch)
        for k in path:
            attempt(ctx, o, *ops[k])
            ctx.state(tuple(o.flat))
        o.check(ctx, 'after %s' % (path,), small)
        ctx.trace()
    batch.flush(ctx)
