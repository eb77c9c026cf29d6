"""C05: structured matrix views address and alias the right block of the matrix."""
import itertools
import casadi as cs
import numpy as np
import casadi_extras.structure3 as ce
import flavours as F
import refstruct as R
import refwrite as RW
import words as W
from c01 import must_raise
from c02 import chain, aligned
from c03 import single
from decls import S, E, K, KINDS, INNER, INNER_R

BOUNDS = {
    'quick': '4 forms (repeated, squared, product, squared_repeated) x 9 declarations (products: all 25 pairs of 5) x repetitions 1..3 x DM, SX, MX, larger views (5 and 11 columns, up to 12 rows) read, written (DM) and with histories of 2 writes; reads with every index of at most one unusual token; single writes through every such index of the exact payload and in turn one of scalar, numpy, list, repeated, wrong shape, too short (SX, MX: one of them in turn); all histories of 3 writes (DM) or 2 (SX, MX) over 7 operations with every element read back through the view and the underlying matrix; all histories of 4 writes (SX, MX: 3) through the view, through a second view of the same matrix and to the matrix itself; all wrong dimensions up to 2n+1',
    'thorough': 'repetitions up to 4, histories one deeper, every plain token next to the unusual one, every payload kind through every index',
}

DS = {
    'one': S(E('a')),
    'flat': S(E('a'), E('b', sh=2)),
    'vecs': S(E('a', sh=2), E('b', sh=3)),
    'rep': S(E('a', rep=2), E('b')),
    'repv': S(E('a', rep=2, sh=2), E('b')),
    'nest': S(E('n', st=INNER), E('a')),
    'mat': S(E('a', sh=[2, 2]), E('b')),
    'grp': S((E('a', rep=2), E('b', rep=2))),
    'ord': S(E('a'), E('b', sh=2), o=['b', 'a']),
    'many': S(*[E('e%d' % k, sh=1 + k % 2) for k in range(7)]),
    'rep11': S(E('a', rep=11), E('b')),
}
MORE = ['many', 'rep11']
PROD = ['one', 'flat', 'vecs', 'rep', 'nest']


def scenarios(tier):
    t = tier == 'thorough'
    forms = []
    for d in [k for k in DS if k not in MORE]:
        for n in ((1, 2, 3, 4) if t else (1, 2, 3)):
            forms.append(['repeated', d, d, n])
        for n in (1, 2, 3) if t else (1, 2):
            forms.append(['squared_repeated', d, d, n])
        forms.append(['squared', d, d, 1])
    forms += [['product', a, b, 1] for a in PROD for b in PROD]
    out = []
    for f in [['repeated', d, d, n] for d in ('one', 'flat', 'rep', 'nest') for n in (5, 11)] + [['repeated', d, d, 2] for d in MORE] + [['squared', d, d, 1] for d in MORE] + [['squared_repeated', d, d, n] for d, n in (('flat', 5), ('one', 11), ('rep', 4), ('many', 2))] + [['product', 'many', 'flat', 1], ['product', 'flat', 'rep11', 1]]:
        out.append({'form': f, 'do': 'dims'})
        for fl in ('DM', 'SX', 'MX'):
            for do in ('read', 'write') if fl == 'DM' else ('read',):
                out.append({'form': f, 'do': do, 'fl': fl, 'mini': True})
            out.append({'form': f, 'do': 'shared', 'fl': fl, 'depth': 2})
    for f in forms:
        out.append({'form': f, 'do': 'dims'})
        for fl in ('DM', 'SX', 'MX'):
            out.append({'form': f, 'do': 'read', 'fl': fl, 'mini': not t})
            out.append({'form': f, 'do': 'write', 'fl': fl, 'mini': not t})
            for k in range(7):
                out.append({'form': f, 'do': 'hist', 'fl': fl, 'first': k, 'depth': (3 if fl == 'DM' else 2) + t})
            out.append({'form': f, 'do': 'shared', 'fl': fl, 'depth': (4 if fl == 'DM' else 3) + t})
    return out


def decl_of(form):
    """The declaration whose flat vector is the column-major matrix."""
    kind, a, b, n = form
    if kind == 'repeated':
        return S(E('t', st=DS[a], rep=n))
    if kind == 'squared_repeated':
        return S(E('t', ss=[DS[a], DS[a]], rep=n))
    return S(E('t', ss=[DS[a], DS[b]]))


def dims(form):
    kind, a, b, n = form
    m, k = R.RStruct(DS[a]).size, R.RStruct(DS[b]).size
    return {'repeated': (m, n), 'squared_repeated': (m, m * n), 'squared': (m, m), 'product': (m, k)}[kind]


def view(form, data):
    kind, a, b, n = form
    s = R.real_struct(DS[a], ce, 'struct')
    if kind == 'product':
        return s.product(R.real_struct(DS[b], ce, 'struct'), data)
    return getattr(s, kind)(data)


class Obj(object):
    def __init__(self, form, fl, ref):
        self.ref = ref
        self.r, self.c = dims(form)
        self.flat = F.tags(ref.size)
        num = cs.reshape(cs.DM(self.flat), self.r, self.c)
        self.T = getattr(cs, fl)
        self.args, self.vals = [], []
        if fl == 'DM':
            self.A = num
        else:
            x = self.T.sym('x', self.r, self.c)
            self.args, self.vals = [x], [num]
            self.A = self.T(x)
        self.v = view(form, self.A)

    def leaf(self, m):
        if self.T is cs.DM:
            return m
        y = self.T.sym('y', m.sparsity())
        self.args.append(y)
        self.vals.append(m)
        return y

    def check(self, ctx, what, reads):
        mats = [cs.DM(self.v) if self.T is cs.DM else self.T(self.v), self.v.cast(), self.A]
        whole = cs.reshape(cs.DM(self.flat), self.r, self.c)
        exps = [whole] * 3
        for w, exp in reads:
            got = R.flatten(self.v[R.real_word(w[1:], ce)]) if len(w) > 1 else R.flatten(self.v())
            ctx.expect(len(got) == len(R.flatten(exp)), lambda: '%s: %s reads %s' % (what, w, got))
            mats += got
            exps += [R.values_of(x, self.flat) for x in R.flatten(exp)]
        vals = mats if self.T is cs.DM else cs.Function('f', self.args, [self.T(m) for m in mats]).call(self.vals)
        for k, (v, e) in enumerate(zip(vals, exps)):
            ctx.expect(tuple(v.shape) == tuple(e.shape) and np.array_equal(cs.DM(v).full(), e.full()),
                       lambda: '%s: %s is %s instead of %s' % (what, ['the view as a matrix', 'cast()', 'the viewed matrix'][k] if k < 3 else 'a read', v, e))


def view_words(ref, mini):
    return [w for w in W.words(ref, 1, mini=mini) if w[0] == 't']


def run(scn, ctx):
    form = scn['form']
    ref = R.RStruct(decl_of(form))
    if scn['do'] == 'dims':
        run_dims(form, ctx)
    elif scn['do'] == 'read':
        run_read(scn, form, ref, ctx)
    elif scn['do'] == 'write':
        run_write(scn, form, ref, ctx)
    elif scn['do'] == 'shared':
        run_shared(scn, form, ref, ctx)
    else:
        run_hist(scn, form, ref, ctx)


def run_read(scn, form, ref, ctx):
    o = Obj(form, scn['fl'], ref)
    outs, exps = [], []
    for w in view_words(ref, scn['mini']):
        try:
            exp = ref.read(w)
        except R.Bad:
            exp = None
        rw = R.real_word(w[1:], ce)
        ctx.step()
        try:
            got, err = (o.v[rw] if rw else o.v()), None
        except Exception as e:
            got, err = None, e
        ctx.state(w)
        if exp is None:
            ctx.expect(err is not None or not any(x.numel() for x in R.flatten(got)), lambda: '%s: nothing is addressed, but the read gives %s' % (w, got))
            continue
        ctx.expect(err is None, lambda: '%s: raised %s' % (w, chain(err)))
        ctx.expect(R.skeleton(got) == R.skeleton(exp), lambda: '%s: got %s, expected the positions %s' % (w, got, exp))
        a, b = aligned(got, exp)
        outs += a
        exps += [(w, R.values_of(x, o.flat)) for x in b]
        ctx.outcome(R.skeleton(exp))
    fl = F.Flavour(None, o.args, o.vals, o.flat)
    for v, (w, e) in zip(fl.eval(outs), exps):
        ctx.expect(R.same_matrix(v, e), lambda: '%s: got %s instead of %s' % (w, v, e))
    o.check(ctx, 'after reading', [])
    ctx.expect(tuple(o.v.shape) == (o.r, o.c), lambda: 'the view has shape %s' % (o.v.shape,))
    ctx.trace()


def attempt(ctx, o, w, p):
    """One write; False when the state afterwards is unspecified."""
    what = 'write %s = %s' % (w, p)
    try:
        exp = RW.Writer(o.ref).write(o.flat, w, p)[0]
    except R.Bad:
        exp = None
    except RW.Unspecified:
        return False
    ctx.step()
    rp = RW.real(p, ce, o.leaf)
    try:
        o.v[R.real_word(w[1:], ce)] = rp
        err = None
    except Exception as e:
        err = e
    if exp is None:
        ctx.expect(err is not None, lambda: '%s: accepted' % what)
        ctx.outcome('raised')
        return single(o.ref, w)
    ctx.expect(err is None, lambda: '%s: raised %s' % (what, chain(err)))
    ctx.outcome('written')
    o.flat = exp
    return True


def run_write(scn, form, ref, ctx):
    elems = [(list(c), ref.read(c)) for c, m in ref.slots]
    for num, w in enumerate(view_words(ref, scn['mini'])):
        if len(w) < 2 or any(isinstance(t, dict) and 'f' in t for t in w):
            continue
        try:
            read = ref.read(w)
        except R.Bad:
            read = None
        if read is None:
            pl = [7.5]
        else:
            pl = RW.payloads(read, RW.Vals(100))
            if any(m.numel() == 0 or len(set(m.nonzeros())) < m.nnz() for m in R.flatten(read)):
                pl = pl[:1]
            pl = [p for p in pl if not (isinstance(p, dict) and ('sp' in p or 't' in p))]
            if scn['mini']:
                # the exact payload and one other kind, in turn
                pl = pl[1:2] + [(pl[:1] + pl[2:])[num % (len(pl) - 1)]] if len(pl) > 1 else pl
                if scn['fl'] != 'DM':
                    pl = pl[num % len(pl):][:1]
        for p in pl:
            o = Obj(form, scn['fl'], ref)
            if attempt(ctx, o, w, p):
                o.check(ctx, 'after %s = %s' % (w, p), elems)
            ctx.state(tuple(o.flat))
            ctx.trace()


def ops(ref):
    """Seven writes of different kinds with fitting payloads (the last one does not fit)."""
    v = RW.Vals(1000)
    ws = []
    e = ref.entries['t']
    pre = [-1] * len(e.dims)
    if e.sub is not None:
        k0, k1 = e.sub.keys[0], e.sub.keys[-1]
        ws = [['t', 0], ['t', -1, k1], ['t', {'s': [None, None, None]}, k0], ['t', {'s': [None, None, -1]}], ['t', 0, {'d': 1}], ['t', -1, {'dots': 1}]]
        bad = ['t', 0, k0]
    else:
        k0, k1 = e.mat.shapestruct[0].keys[0], e.mat.shapestruct[1].keys[-1]
        ws = [['t'] + pre + [k0, k1], ['t'] + pre + [{'s': [None, None, None]}, k1], ['t'] + [0] * len(pre) + [{'ix': [k0]}, 0],
              ['t'] + pre + [0, {'s': [None, None, None]}], ['t'] + pre + [0, -1], ['t'] + pre + [{'ixf': [k0]}, {'ixf': [k1]}]]
        bad = ['t'] + pre + [k0, k1]
    out = []
    for w in ws:
        try:
            read = ref.read(w)
        except R.Bad:
            read = ref.read(ws[0])
            w = ws[0]
        out.append((w, RW.build(read, v, 'm')))
    return out + [(bad, v.mat(9, 9))]


def run_hist(scn, form, ref, ctx):
    alpha = ops(ref)
    elems = [(list(c), ref.read(c)) for c, m in ref.slots]
    for rest in itertools.product(range(len(alpha)), repeat=scn['depth'] - 1):
        path = (scn['first'],) + rest
        ctx.history = [str(alpha[k]) for k in path]
        o = Obj(form, scn['fl'], ref)
        for n, k in enumerate(path):
            if not attempt(ctx, o, *alpha[k]):
                break
            ctx.state(tuple(o.flat))
            if n != 1 or scn['depth'] == 2:
                o.check(ctx, 'after %s' % (path[:n + 1],), elems)
        ctx.trace()


def run_shared(scn, form, ref, ctx):
    """Writes through the view, through a second view of the same matrix and to the matrix itself."""
    alpha = ops(ref)
    alpha = [alpha[0], alpha[2]]
    names = ['view', 'view2', 'other', 'corner', 'last']
    elems = [(list(c), ref.read(c)) for c, m in ref.slots]
    for path in itertools.product(range(len(names)), repeat=scn['depth']):
        if not {0, 1} & set(path) or not {2, 3, 4} & set(path):
            continue
        ctx.history = [names[k] for k in path]
        o = Obj(form, scn['fl'], ref)
        other = ce.struct([ce.entry('y', shape=o.r)]).repeated(o.A)
        for n, k in enumerate(path):
            ctx.step()
            if k < 2:
                if not attempt(ctx, o, *alpha[k]):
                    break
            else:
                m = cs.DM([2000.5 + 100 * n + i for i in range(o.r if k == 2 else 1)])
                val = o.leaf(m) if k != 3 else m      # numbers and symbols
                if k == 2:
                    other[o.c - 1, 'y'] = val
                elif k == 3:
                    o.A[0, 0] = val
                else:
                    o.A[o.r - 1, o.c - 1] = val
                p = {2: o.r * (o.c - 1), 3: 0, 4: o.r * o.c - 1}[k]
                o.flat = o.flat[:p] + list(m.nonzeros()) + o.flat[p + m.numel():]
            ctx.state(tuple(o.flat))
            # the parts of an MX view are made by its own writes
            if scn['fl'] != 'MX' or (k < 2 and n == len(path) - 1):
                o.check(ctx, 'after %s' % (ctx.history[:n + 1],), elems if n >= len(path) - 2 else [])
        ctx.trace()


def run_dims(form, ctx):
    kind, a, b, n = form
    r, c = dims(form)
    for h in range(0, 2 * r + 2):
        for w in range(0, 2 * c + 2):
            A = cs.DM.ones(h, w)
            if (h, w) == (r, c) or (kind == 'repeated' and h == r) or (kind == 'squared_repeated' and h == r and w % r == 0):
                v = view(form, A)
                ctx.expect(tuple(v.shape) == (h, w), 'accepted view has another shape')
                ctx.step()
                continue
            if (h, w) == (1, 1) and kind in ('squared', 'product') and r != 1:
                v = view(form, 2.5)
                ctx.expect(tuple(v.shape) == (r, c) and cs.DM(v).full().tolist() == [[2.5] * c] * r, 'broadcast scalar')
                ctx.step()
                continue
            if (h, w) == (1, 1) and kind == 'product':
                continue
            must_raise(ctx, lambda: view(form, A), '%s view of a %dx%d matrix for a structure of size %d' % (kind, h, w, r))
            if h * w < 40:
                must_raise(ctx, lambda: view(form, cs.SX.sym('x', h, w)), '%s view of a %dx%d SX for a structure of size %d' % (kind, h, w, r))
                must_raise(ctx, lambda: view(form, cs.MX.sym('x', h, w)), '%s view of a %dx%d MX for a structure of size %d' % (kind, h, w, r))
    # other representations of the data
    vals = np.array(F.tags(r * c)).reshape(c, r).T
    for data in (vals, vals.tolist()):
        v = view(form, data)
        ctx.expect(np.array_equal(cs.DM(v).full(), vals), 'view of %s' % type(data))
    ctx.state(form)
    ctx.trace()
