"""C03: a power-index write changes exactly the addressed elements, over any history."""
import itertools
import casadi as cs
import numpy as np
import casadi_extras.structure3 as ce
import flavours as F
import refstruct as R
import refwrite as RW
import words as W
from c02 import DENSE, chain
from decls import S, E, K, KINDS, LARGE, INNER, INNER_R, SP, singles, inside

BOUNDS = {
    'quick': 'single writes: 36 declarations x 5 mutable flavours (DM, SX, MX, struct_SX, struct_MX_mutable) x every power index with at most one unusual token (plain tokens only for the symbolic flavours of the 4 largest declarations) x every payload kind (for the symbolic flavours scalar, exact and one other, in turn; scalar, exact, numpy, list, tuple, repeated, transposed, sparse, nested list/dict, partial and unknown keys, too short, too long, wrong shape), each also through a prefix; every integer, slice (bounds up to 2 beyond the range, steps up to 3 in both directions) and list of up to 3 positions of 9 declarations with repetitions up to 5 with the exact payload and in turn one of the others; structures made from one declaration in every ordered choice of three of 9 ways (default, scalar, vector, array, list, dict, undefined, from another one) with writes before, between and after; 9 larger declarations (as in C01) and 16 pairs inside a nested structure written with plain tokens; histories: all sequences of up to 3 writes on two structures sharing a declaration over the 6 operations of each of 7 declarations (DM, 2 for SX and MX); after every write all positions and all index words of the history alphabet are read back from all structures',
    'thorough': 'single writes also with every plain token next to the unusual one; histories of up to 4 writes (DM) and 3 (SX, MX) over 8 operations',
}
ASSUMPTIONS = ['a failed write which addresses several elements may have changed some of them']

SINGLE = [K_ for K_ in KINDS if K_ not in ('symm', 'symmr', 'symmsp', 'nestsym')]
EXTRA = [
    S(K('rep2', 'a'), K('mat23', 'b')),
    S(K('nest2', 'a'), K('nest', 'b'), K('scalar', 'c')),
    S((K('rep2', 'a'), K('rep3v', 'b')), K('sparse', 'c')),
    S(K('vec3', 'b'), K('rep22', 'a'), o=['a', 'b']),
]
HIST = [
    S(K('vec3', 'a'), K('mat23', 'b')),
    S(K('rep3v', 'a'), K('scalar', 'b')),
    S(K('rep23m', 'a'), K('vec3', 'b')),
    S((K('rep2', 'a'), K('rep3v', 'b'))),
    S(K('nest2', 'a'), K('nest', 'b')),
    S(K('sparse', 'a'), K('rep2sp', 'b')),
    S(K('shs', 'a'), K('scalar', 'b')),
]
FL = ['DM', 'SX', 'MX', 'struct_SX', 'struct_MX_mutable']


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    ds = singles(SINGLE) + EXTRA
    for d in ds:
        for f in FL:
            if f.startswith('struct_') and not F.expr_ok(d):
                continue
            b = 0 if f != 'DM' and not t and len(W.words(R.RStruct(d), 0)) > 200 else 1
            n = len(W.words(R.RStruct(d), b, mini=not t))
            parts = 1 + n // (600 if f == 'DM' else 200)
            for k in range(parts):
                out.append({'decl': d, 'flavour': f, 'part': [k, parts], 'mini': not t, 'budget': b, 'full': t or f == 'DM'})
    for d in LARGE[:4] + LARGE[6:]:
        out += [{'decl': d, 'flavour': 'DM', 'part': [k, 4], 'mini': True, 'budget': 0, 'full': t} for k in range(4)]
    for d in inside(['row', 'mat23', 'sparse', 'rep2']):
        out.append({'decl': d, 'flavour': 'DM', 'part': [0, 1], 'mini': True, 'budget': 0, 'full': t})
    for d in DENSE:
        for k in range(4):
            out.append({'decl': d, 'flavour': 'DM', 'part': [k, 4], 'dense': 1 + t, 'full': t})
    for d in HIST:
        for a, b in itertools.product(MAKERS, repeat=2):
            out.append({'decl': d, 'made': [a, b], 'depth': 3 if t else 2})
    for d in HIST:
        nops = 8 if t else 6
        ops = [(i, k) for i in (0, 1) for k in range(nops)]
        for a in ops:
            out.append({'hist': d, 'flavour': 'DM', 'first': list(a), 'depth': 4 if t else 3, 'nops': nops})
            for f in FL[1:]:
                if f.startswith('struct_') and not F.expr_ok(d):
                    continue
                out.append({'hist': d, 'flavour': f, 'first': list(a), 'depth': 3 if t else 2, 'nops': nops})
    return out


class Batch(object):
    """Symbols shared by all structures of a scenario; comparisons are evaluated together."""

    def __init__(self):
        self.cache = {}         # base value -> symbols of the initial flat vector
        self.pool = {}          # sparsity -> symbol used in payloads
        self.todo = []

    def payload(self, T, m):
        """An expression of the value m which depends on a symbol."""
        k = str(m.sparsity().dim(True)) + str(m.sparsity().row()) + str(m.sparsity().colind())
        if k not in self.pool:
            self.pool[k] = (T.sym('y', m.sparsity()), cs.DM(m.sparsity(), [0.25] * m.nnz()))
        y, v = self.pool[k]
        return y + (m - v)

    def args(self):
        args = [y for y, v in self.pool.values()]
        vals = [v for y, v in self.pool.values()]
        for c in self.cache.values():
            if 'exprs' in c:
                args, vals = args + c['exprs'][1], vals + c['exprs'][2]
            elif 'x' in c:
                args, vals = args + [c['x']], vals + [c['v']]
        return args, vals

    def flush(self, ctx):
        if not self.todo:
            return
        args, vals = self.args()
        T = cs.MX if any(isinstance(a, cs.MX) for a in args) else cs.SX
        for k in range(0, len(self.todo), 1000):
            part = self.todo[k:k + 1000]
            res = cs.Function('f', args, [m for m, e, w in part]).call(vals)
            for r, (m, e, what) in zip(res, part):
                compare(ctx, r, e, what)
        self.todo = []


def compare(ctx, v, e, what):
    ctx.expect(tuple(v.shape) == tuple(e.shape), lambda: '%s: shape %s instead of %s' % (what, v.shape, e.shape))
    ctx.expect(cs.DM(v).full().tolist() == cs.DM(e).full().tolist(), lambda: '%s: got %s instead of %s' % (what, v, e))


class Obj(object):
    """A real structure together with its reference state."""

    def __init__(self, name, decl, ref, base, shared, batch):
        self.ref = ref
        self.flat = F.tags(ref.size, base)
        self.batch = batch
        self.T = cs.DM if name == 'DM' else cs.SX if 'SX' in name else cs.MX
        c = batch.cache.setdefault(base, {})
        if name in ('DM', 'SX', 'MX'):
            v = cs.DM(self.flat) if ref.size else cs.DM(0, 1)
            if name == 'DM':
                self.s = shared(v)
            else:
                if 'x' not in c:
                    c['x'], c['v'] = self.T.sym('x', ref.size), v
                self.s = shared(self.T(c['x']))
        else:
            self.s = F.build(name, decl, ref, ce, self.flat, c).obj

    def leaf(self, m):
        return m if self.T is cs.DM else self.batch.payload(self.T, m)

    def expect(self, ctx, got, exp, what):
        if self.T is cs.DM:
            compare(ctx, got, exp, what)
        else:
            self.batch.todo.append((self.T(got), exp, what))

    def check(self, ctx, what, ws=()):
        """The flat vector and the given words read the reference state."""
        if self.ref.size == 0:
            return
        self.expect(ctx, self.s.cat, cs.DM(self.flat), what)
        for w, exp in ws:
            got = self.s[R.real_word(w, ce)]
            a, b = R.flatten(got), R.flatten(exp)
            ctx.expect(len(a) == len(b), lambda: '%s: reading %s gives %s' % (what, w, got))
            for g, e in zip(a, b):
                self.expect(ctx, g, R.values_of(e, self.flat), what + ', reading %s' % w)


def do(ctx, o, word, payload, split=None):
    """One write on the real object, judged against the reference; returns False when the
    state afterwards is unspecified."""
    what = 'write %s = %s' % (word, payload)
    rw = R.real_word(word, ce)
    rp = RW.real(payload, ce, o.leaf)
    w = RW.Writer(o.ref)
    try:
        exp = w.write(o.flat, word, payload)[0]
    except R.Bad:
        exp = None
    except RW.Unspecified:
        return False
    ctx.step()
    try:
        if split is None:
            o.s[rw] = rp
        else:
            o.s.prefix[rw[:split]][rw[split:]] = rp
        err = None
    except Exception as e:
        err = e
    if exp is None:
        if err is None and w.count == 0:
            ctx.outcome('nothing addressed')
            return False
        ctx.expect(err is not None, lambda: '%s: accepted' % what)
        ctx.outcome(('raised', w.count))
        # whatever was addressed before the failure may have changed
        return single(o.ref, word)
    ctx.expect(err is None, lambda: '%s: raised %s' % (what, chain(err)))
    o.flat = exp
    ctx.outcome(('written', w.count))
    return True


def single(ref, word):
    try:
        return isinstance(ref.read(word), cs.DM)
    except R.Bad:
        return all(isinstance(t, (str, int)) for t in word)


def canon(ref):
    """Words reading everything: each leaf, each entry, everything as lists and as dicts."""
    out = [list(c) for c, m in ref.slots] + [[n] for n in ref.keys] + [[{'dots': 1}], [{'nd': 1}]]
    return [(w, ref.read(w)) for w in out if ref.size]


def run(scn, ctx):
    if 'hist' in scn:
        return run_hist(scn, ctx)
    if 'made' in scn:
        return run_made(scn, ctx)
    decl = scn['decl']
    ref = R.RStruct(decl)
    if 'dense' in scn:
        ws = [w for n in ref.keys if ref.entries[n].dims for w in W.dense_words(ref, n, scn['dense'] > 1)]
    else:
        ws = W.words(ref, scn['budget'], mini=scn['mini'])
    k, n = scn['part']
    reads = canon(ref)
    if scn['flavour'] != 'DM':
        reads = [r for r in reads if len(r[0]) == 1]
    base = R.real_struct(decl, ce, 'struct')
    batch = Batch()
    for num, w in enumerate(ws[k::n]):
        try:
            read = ref.read(w)
        except R.Bad:
            read = None
        pl = RW.payloads(read, RW.Vals(100)) if read is not None else [7.5, {'l': [7.5, 8.5]}, {'dict': {ref.keys[0]: 7.5}}]
        if 'dense' in scn and not scn['full']:
            # the exact payload and in turn one of the others
            pl = pl[1:2] + [(pl[:1] + pl[2:])[num % (len(pl) - 1)]]
        if scn['flavour'] != 'DM':
            # scalar, exact, and in turn one of the other payload kinds
            rest = [p for p in pl[2:] if not (isinstance(p, dict) and 't' in p)]
            pl = pl[:2] + (rest if scn['full'] else rest[num % len(rest):num % len(rest) + 1] if rest else [])
        if any(isinstance(t, dict) and 'f' in t for t in w):
            # a callable index takes one matrix
            pl = [p for p in pl if not (isinstance(p, dict) and set(p) & {'l', 't', 'rep'})]
        for p in pl:
            for split in ((None, 1) if num % 7 == 0 else (None,)):
                if not ref.keys:
                    continue
                if split is not None and len(w) < 2:
                    continue
                o = Obj(scn['flavour'], decl, ref, 0.0, base, batch)
                other = Obj(scn['flavour'], decl, ref, 0.25, base, batch) if scn['flavour'] == 'DM' else None
                what = 'after %s = %s' % (w, p)
                if do(ctx, o, w, p, split):
                    o.check(ctx, what, reads)
                if other is not None:
                    other.check(ctx, what + ', the other structure')
                ctx.state(tuple(o.flat))
                ctx.trace()
    batch.flush(ctx)


def hist_ops(ref, nops):
    """Operations of the histories: indices of all kinds, each with a fitting payload."""
    ks = ref.keys
    v = RW.Vals(1000)
    cand = []
    a, b = ks[0], ks[-1]
    ea = ref.entries[a]
    ends = {'s': [None, None, 2]}
    cand.append(([a] + [0] * len(ea.dims), None))
    cand.append(([b], None))
    cand.append(([{'d': 1}], None))
    eb = ref.entries[b]
    if ea.sub is not None:
        cand.append(([a] + [-1] * len(ea.dims) + [ea.sub.keys[-1], 0], None))
    else:
        cand.append(([a] + [-1] * len(ea.dims) + [1 if ea.mat.sp.numel() > 1 else 0], None))
    cand.append(([a] + [{'s': [None, None, None]}] * len(ea.dims), 'scalar'))
    cand.append(([{'f': 'catv'}, {'dots': 1}] if ref.size else [a], None))
    cand.append(([{'dots': 1}], None))
    cand.append(([b] + [-1] * len(eb.dims), 'bad'))
    ops = []
    for w, kind in cand[:nops]:
        read = ref.read(w)
        if kind == 'scalar':
            ops.append((w, v.next()))
        elif kind == 'bad':
            ops.append((w, v.mat(9, 1)))
        else:
            ops.append((w, RW.build(read, v, 'm')))
    return ops


MAKERS = ['none', 'zero', 'float', 'vector', 'array', 'list', 'dict', 'nan', 'copy']


def make(how, base, ref, other):
    """A numeric structure of the declaration and its flat vector."""
    n = ref.size
    if how == 'none':
        return base(), [0.0] * n
    if how == 'zero':
        return base(0), [0.0] * n
    if how == 'float':
        return base(3.5), [3.5] * n
    if how == 'nan':
        return ce.DMStruct(base), [float('nan')] * n
    f = F.tags(n)
    if how == 'vector':
        return base(cs.DM(f)), f
    if how == 'array':
        return base(np.array(f)), f
    if how == 'list':
        return base(list(f)), f
    if how == 'copy':
        return base(cs.DM(other[0].cat)), list(other[1])
    data = {k: RW.build(ref.read([k]), RW.Vals(300), 'm') for k in ref.keys}
    f = [float('nan')] * n
    for k in ref.keys:
        f = RW.Writer(ref).write(f, [k], data[k])[0]
    return base({k: RW.real(data[k], ce, lambda m: m) for k in ref.keys}), f


def run_made(scn, ctx):
    """Structures made from one declaration in any two ways, with writes before, between
    and after: each only sees its own writes."""
    decl = scn['decl']
    ref = R.RStruct(decl)
    ops = hist_ops(ref, 5)
    for third in MAKERS:
        for path in itertools.product(range(2), *[range(len(ops))] * scn['depth']):
            base = R.real_struct(decl, ce, 'struct')
            objs = []
            ctx.history = [scn['made'], third, path]

            def new(how):
                s, f = make(how, base, ref, objs[0] if objs else (base(0), [0.0] * ref.size))
                objs.append([s, list(f)])
                ctx.step()

            def write(i, k):
                w, p = ops[k]
                objs[i][0][R.real_word(w, ce)] = RW.real(p, ce, lambda m: m)
                objs[i][1] = RW.Writer(ref).write(objs[i][1], w, p)[0]
                ctx.step()

            new(scn['made'][0])
            if path[0]:
                write(0, path[1])
            new(scn['made'][1])
            if not path[0]:
                write(0, path[1])
            for k in path[2:]:
                write(1, k)
            new(third)
            for i, (s, f) in enumerate(objs):
                a = np.array(f)
                ctx.expect(np.array_equal(s.cat.full().reshape(-1), a, equal_nan=True), lambda: 'structure %d of %s: %s instead of %s' % (i, scn['made'] + [third], s.cat, f))
            ctx.state(tuple(tuple(map(str, f)) for s, f in objs))
            ctx.trace()


def run_hist(scn, ctx):
    decl = scn['hist']
    ref = R.RStruct(decl)
    ops = hist_ops(ref, scn['nops'])
    reads = canon(ref)
    if scn['flavour'] != 'DM':
        reads = reads[-3:]
    base = R.real_struct(decl, ce, 'struct')
    alpha = [(i, k) for i in (0, 1) for k in range(len(ops))]
    first = tuple(scn['first'])
    depth = scn['depth']
    batch = Batch()
    for rest in itertools.product(alpha, repeat=depth - 1):
        objs = [Obj(scn['flavour'], decl, ref, 0.0, base, batch), Obj(scn['flavour'], decl, ref, 0.25, base, batch)]
        path = (first,) + rest
        ctx.history = [str((i, ops[k])) for i, k in path]
        ok = True
        for n, (i, k) in enumerate(path):
            if not do(ctx, objs[i], *ops[k]):
                ok = False
                break
            if n == 0 or n == depth - 1:
                for j in (0, 1):
                    objs[j].check(ctx, 'structure %d after %s' % (j, path[:n + 1]), reads)
            ctx.state((tuple(objs[0].flat), tuple(objs[1].flat)))
        ctx.trace()
        if len(batch.todo) > 3000:
            batch.flush(ctx)
    batch.flush(ctx)
