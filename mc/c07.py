"""C07: saved and pickled structures load back as the same structures."""
import copy
import itertools
import os
import pickle
import shutil
import tempfile
import casadi as cs
import numpy as np
import casadi_extras.structure3 as ce
import flavours as F
import refstruct as R
import refwrite as RW
import words as W
from c01 import ref_positions, must_raise
from c03 import compare
from c05 import DS, PROD, decl_of, dims, view
from c06 import block_payload, real_payload
from decls import S, E, K, KINDS, LARGE, INNER, INNER_R, singles, inside, pairs, groups

BOUNDS = {
    'quick': '90 declarations (every entry kind, mixes, pairs inside a nested structure, groups, orders, larger ones) x (struct, symSX, symMX declarations and numeric values, structure-shaped axes by name, symmetric entries written as matrices) x pickle protocols 0-5, deepcopy, copy, save/load through a file (declaration and value), each also twice in a row; 9 ways to put several objects in one pickle; 7 declarations with every pattern of structural zeros and infinite elements in the value through every way; 58 matrix views (4 forms) and every prefix of their values through every protocol, read, written and cast after loading; all histories of 4 operations (pickle value/declaration, deepcopy, write through the original or the copy, cast) for 8 declarations',
    'thorough': 'all pairs over 12 kinds, histories of 5 operations',
}

MIX = [
    S(K('rep2', 'a'), K('mat23', 'b')), S(K('nest2', 'a'), K('nest', 'b'), K('scalar', 'c')),
    S((K('rep2', 'a'), K('rep3v', 'b')), K('sparse', 'c')), S(K('vec3', 'b'), K('rep22', 'a'), o=['a', 'b']),
    S(K('symm', 'm'), K('rep2', 'n')), S(K('scalar', 'z'), K('symmr', 'm')), S((K('nest2', 'a'), K('rep3v', 'b'))),
    S(K('deep2', 'd'), K('nestsp', 'e')),
    S(E('n', st=S(E('p'), E('q', sh=2), o=['q', 'p']), rep=2)),
    S(E('n', st=S((E('p', rep=2), E('q', rep=2))), rep=2), E('m')),
    S(K('scalar', 'c'), K('vec3', 'a'), K('rep2', 'b'), o=['b', ['c', 'a']]),
]
HIST = [MIX[0], MIX[1], MIX[2], MIX[3], MIX[4], S(K('vec3', 'a')), S(K('sparse', 'a'), K('shs', 'b')), S(K('nest22', 'a'))]
SPARSE = [S(E('a')), S(E('a', sh=2)), S(E('a', rep=2), E('b')), S(E('a', sh=[2, 2])), S(E('n', st=INNER), E('b')), S(E('b'), E('a', sh=2), o=['a', 'b']), S(K('sparse', 'a'))]
FORMS = [[k, d, d, n] for d in DS for k, n in (('repeated', 2), ('squared', 1), ('squared_repeated', 2))] + [['product', a, b, 1] for a in PROD for b in PROD]
VIA = ['p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'deepcopy', 'copy', 'file']


def decls(tier):
    ds = singles(KINDS) + MIX + pairs(['scalar', 'mat23', 'rep3v', 'nest2']) + inside(['row', 'mat23', 'sparse', 'rep2']) + LARGE
    if tier == 'thorough':
        ds += pairs(['sparse', 'row', 'rep22', 'symm', 'shs', 'deep', 'rep0', 'nestsym', 'rep2', 'vec3', 'shsi', 'nest22'])
    return ds


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for d in decls(tier):
        for via in VIA:
            out.append({'decl': d, 'via': via, 'do': 'one'})
        out.append({'decl': d, 'do': 'many'})
    for d in SPARSE:
        out.append({'decl': d, 'do': 'patterns'})
    for form in FORMS:
        out.append({'decl': decl_of(form), 'do': 'view', 'form': form})
    n = len(HOPS)
    for d in HIST:
        for a, b in itertools.product(range(n), repeat=2):
            out.append({'decl': d, 'do': 'hist', 'first': [a, b], 'depth': 5 if t else 4})
    return out


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c07_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def transport(obj, via):
    if via == 'deepcopy':
        return copy.deepcopy(obj)
    if via == 'copy':
        return copy.copy(obj)
    if via == 'file':
        with Scratch() as d:
            fn = os.path.join(d, 'saved')
            if isinstance(obj, ce.DMStruct):
                obj.save(fn)
            else:
                obj.struct.save(fn)     # a declaration is saved by its structure
            return ce.struct_load(fn)
    return pickle.loads(pickle.dumps(obj, int(via[1])))


def probe(ref):
    """Words and their stored positions / read positions."""
    if not ref.size:
        return []
    ws = [list(c) for c, m in ref.slots] + [[n] for n in ref.keys]
    for c, m in ref.slots:
        ws += [list(c) + x for x in axis_words(m)]
    ws += [[{'dots': 1}], [{'nd': 1}]]
    return [(w, ref.read(w)) for w in ws]


def axis_words(m):
    """Rows and columns of a structure-shaped matrix, addressed by name."""
    if m.shapestruct is None:
        return []
    alls = {'s': [None, None, None]}
    names = [[[k] for k in x.keys] if isinstance(x, R.RStruct) else [] for x in m.shapestruct]
    out = [[{'ixf': w}, alls] for w in names[0]] + [[alls, {'ixf': w}] for w in names[1]]
    return out + [[a[0], b[0]] for a in names[0] for b in names[1]]


def check_decl(ctx, s, ref, what):
    """s has exactly the layout of ref."""
    ctx.step()
    ctx.expect(s.size == ref.size, lambda: '%s: size %s instead of %s' % (what, s.size, ref.size))
    ctx.expect(list(s.keys()) == ref.keys, lambda: '%s: keys %s instead of %s' % (what, s.keys(), ref.keys))
    labels = []
    for can, m in ref.slots:
        im = s.i[can]
        ctx.expect(R.same_matrix(im, ref.pos[can]), lambda: '%s: positions of %s are %s instead of %s' % (what, can, im, ref.pos[can]))
        labels += ['[' + ','.join(str(x) for x in can + (r, c)) + ']' for r, c in zip(m.sp.row(), m.sp.get_col())]
    got = s.labels(extraMode=2)
    ctx.expect(got == labels, lambda: '%s: labels %s instead of %s' % (what, got, labels))
    if s.size:
        ctx.expect(tuple(s.getCanonicalIndex(s.size - 1, extraMode=0)) == ref.slots[[k for k, (c, m) in enumerate(ref.slots) if m.sp.nnz()][-1]][0],
                   '%s: canonical index' % what)


def check_value(ctx, v, ref, flat, what):
    check_decl(ctx, v, ref, what)
    if not ref.size:
        return
    compare(ctx, v.cat, cs.DM(flat), what)
    for w, exp in probe(ref):
        got = v[R.real_word(w, ce)]
        ctx.expect(R.skeleton(got) == R.skeleton(exp), lambda: '%s: reading %s gives %s' % (what, w, got))
        from c02 import aligned
        for a, b in zip(*aligned(got, exp)):
            compare(ctx, a, R.values_of(b, flat), '%s, reading %s' % (what, w))


def use_decl(ctx, s, ref, what):
    """The declaration casts like the original."""
    flat = F.tags(ref.size, 0.5)
    check_value(ctx, s(cs.DM(flat) if ref.size else cs.DM(0, 1)), ref, flat, what + ', cast of a vector')
    check_value(ctx, s(2.5), ref, [2.5] * ref.size, what + ', cast of a scalar')
    if 'symm' not in repr(ref.decl):
        v = RW.Vals(300)
        data = {k: RW.build(ref.read([k]), v, 'm') for k in ref.keys}
        flat = [float('nan')] * ref.size
        for k in ref.keys:
            flat = RW.Writer(ref).write(flat, [k], data[k])[0]
        r = s({k: RW.real(data[k], ce, lambda m: m) for k in ref.keys})
        check_value(ctx, r, ref, flat, what + ', cast of a dict')
    must_raise(ctx, lambda: s(cs.DM.ones(ref.size + 2, 1)), '%s: cast of a vector of wrong size' % what)
    # a nested use of the loaded declaration
    outer = ce.struct([ce.entry('k'), ce.entry('in', struct=s, repeat=2)])
    check_decl(ctx, outer, R.RStruct({'e': [{'n': 'k'}, {'n': 'in', 'st': ref.decl, 'rep': 2}]}), what + ', nested')


def write_all(ctx, v, ref, flat, what):
    """Write every stored matrix of the value, one after the other."""
    vals = RW.Vals(700)
    for can, m in ref.slots:
        if m.sp.nnz() == 0:
            continue
        full = ref.read(can)
        if m.symm:
            x = vals.next()
            v[can] = x
            flat = RW.Writer(ref).write(flat, list(can), x)[0]
            v[can + (0, 0)] = 1.0 + x
            flat = RW.Writer(ref).write(flat, list(can) + [0, 0], 1.0 + x)[0]
            p = block_payload(full, x + 0.25)
            v[can] = real_payload(p)
            flat = RW.Writer(ref).write(flat, list(can), p)[0]
            i, j = m.sp.row()[-2 % m.sp.nnz()], m.sp.get_col()[-2 % m.sp.nnz()]
            v[can + (j, i)] = 2.0 + x
            flat = RW.Writer(ref).write(flat, list(can) + [j, i], 2.0 + x)[0]
        else:
            p = vals.mat(*full.shape)
            v[can] = RW.real(p, ce, lambda q: q)
            flat = RW.Writer(ref).write(flat, list(can), p)[0]
            for w in axis_words(m):
                x = vals.next()
                v[R.real_word(list(can) + w, ce)] = x
                flat = RW.Writer(ref).write(flat, list(can) + w, x)[0]
    check_value(ctx, v, ref, flat, what + ', after writing every entry')
    return flat


def run(scn, ctx):
    ref = R.RStruct(scn['decl'])
    globals()['run_' + scn['do']](scn, ctx, ref)


def run_one(scn, ctx, ref):
    via = scn['via']
    for kind in ('struct', 'struct_symSX', 'struct_symMX'):
        s = R.real_struct(scn['decl'], ce, kind)
        t = transport(s, via)
        what = '%s through %s' % (kind, via)
        check_decl(ctx, t, ref, what)
        if via != 'file':
            ctx.expect(type(t) is type(s), lambda: '%s: type %s' % (what, type(t)))
        if kind != 'struct' and via != 'file' and ref.size:
            ctx.expect(tuple(t.cat.shape) == (ref.size, 1) and t.cat.is_valid_input(), what + ': not a symbol')
            f = cs.Function('f', [t.cat], R.flatten([t[R.real_word(w, ce)] for w, e in probe(ref)[:-1]]))
            flat = F.tags(ref.size)
            for a, b in zip(f.call([cs.DM(flat)]), R.flatten([e for w, e in probe(ref)[:-1]])):
                compare(ctx, a, R.values_of(b, flat), what)
        use_decl(ctx, t, ref, what)
        check_decl(ctx, s, ref, 'original after %s' % what)
        u = transport(t, via)
        check_decl(ctx, u, ref, what + ' twice')
        use_decl(ctx, u, ref, what + ' twice')
        use_decl(ctx, s, ref, 'original after %s' % what)
        ctx.trace()
    s = R.real_struct(scn['decl'], ce, 'struct')
    flat = F.tags(ref.size)
    v = s(cs.DM(flat) if ref.size else cs.DM(0, 1))
    w = transport(v, via)
    what = 'value through %s' % via
    ctx.expect(type(w) is type(v), '%s: type' % what)
    check_value(ctx, w, ref, flat, what)
    check_value(ctx, v, ref, flat, 'original after %s' % what)
    use_decl(ctx, w, ref, what)
    x = transport(w, via)
    check_value(ctx, x, ref, flat, what + ' twice')
    if via != 'copy':
        write_all(ctx, w, ref, list(flat), what)
        check_value(ctx, v, ref, flat, 'original after writes to the %s' % what)
        check_value(ctx, x, ref, flat, 'second copy after writes to the first')
        y = transport(v, via)
        f2 = write_all(ctx, v, ref, list(flat), 'original')
        check_value(ctx, y, ref, flat, '%s after writes to the original' % what)
        z = transport(v, via)
        check_value(ctx, z, ref, f2, 'written ' + what)
    ctx.state((scn['via'],))
    ctx.trace()


def run_many(scn, ctx, ref):
    """Several objects in one pickle."""
    other = S(E('o', sh=3), E('u', rep=2))
    oref = R.RStruct(other)
    for proto in (0, 2, 5):
        s = R.real_struct(scn['decl'], ce, 'struct')
        o = R.real_struct(other, ce, 'struct')
        f1, f2, f3 = F.tags(ref.size), F.tags(ref.size, 0.5), F.tags(oref.size, 0.25)
        dm = lambda f: cs.DM(f) if f else cs.DM(0, 1)
        mk = lambda: (s(dm(f1)), s(dm(f2)), o(dm(f3)))
        D, V1, V2, V3, O = 'D', 'V1', 'V2', 'V3', 'O'
        for combo in ([D, V1], [V1, D], [V1, V2], [V2, V1], [V1, V3], [V3, V1, O, D, V2], [V1, V1], [D, D], [D, O], [V1, D, V2, D]):
            v1, v2, v3 = mk()
            real = {D: s, V1: v1, V2: v2, V3: v3, O: o}
            objs = [real[c] for c in combo]
            for box in (list, tuple, lambda l: dict(enumerate(l))):
                data = pickle.dumps(box(objs), proto)
                got = pickle.loads(data)
                got = list(got.values()) if isinstance(got, dict) else list(got)
                for c, g in zip(combo, got):
                    judge(ctx, c, g, ref, oref, f1, f2, f3, '%s of %s, protocol %d' % (c, combo, proto))
                # writes to one loaded object leave the others alone
                seen = {}
                for k, (c, g) in enumerate(zip(combo, got)):
                    if c[0] == 'V' and id(g) not in seen and (ref.size or c == V3):
                        seen[id(g)] = c
                        write_all(ctx, g, oref if c == V3 else ref, list({V1: f1, V2: f2, V3: f3}[c]), '%s of %s' % (c, combo))
                        for j, (c2, g2) in enumerate(zip(combo, got)):
                            if id(g2) not in seen:
                                judge(ctx, c2, g2, ref, oref, f1, f2, f3, '%s of %s after writes to %s' % (c2, combo, c))
                for c, g in zip(combo, objs):
                    judge(ctx, c, g, ref, oref, f1, f2, f3, 'original %s of %s' % (c, combo))
                ctx.trace()
            ctx.state((combo, proto))


def judge(ctx, c, g, ref, oref, f1, f2, f3, what):
    if c == 'D':
        check_decl(ctx, g, ref, what)
    elif c == 'O':
        check_decl(ctx, g, oref, what)
    else:
        check_value(ctx, g, oref if c == 'V3' else ref, {'V1': f1, 'V2': f2, 'V3': f3}[c], what)


def run_patterns(scn, ctx, ref):
    """Values with every pattern of structural zeros and infinite elements."""
    s = R.real_struct(scn['decl'], ce, 'struct')
    for pattern in itertools.product((0, 1, 2), repeat=ref.size):
        flat = [(0.0, f, -np.inf)[k] for f, k in zip(F.tags(ref.size), pattern)]
        for via in VIA:
            v = s(cs.sparsify(cs.DM(flat)))
            w = transport(v, via)
            what = 'value with the pattern %s through %s' % (pattern, via)
            ctx.step()
            for u in (w, v):
                ctx.expect(tuple(u.cat.shape) == (ref.size, 1) and u.cat.full().reshape(-1).tolist() == flat, lambda: '%s: %s instead of %s' % (what, u.cat, flat))
                for x, e in probe(ref)[:-2]:
                    got = u[R.real_word(x, ce)]
                    for a, b in zip(R.flatten(got), R.flatten(e)):
                        compare(ctx, a, R.values_of(b, flat), '%s, reading %s' % (what, x))
            if via != 'copy':
                write_all(ctx, w, ref, list(flat), what)
            compare(ctx, v.cat, cs.DM(flat), 'original after writes to the ' + what)
            ctx.trace()
        ctx.state(pattern)


def run_view(scn, ctx, ref):
    """Matrix views and prefixes."""
    r, c = dims(scn['form'])
    elems = [(list(can), ref.read(can)) for can, m in ref.slots]

    def check(v, flat, what):
        ctx.step()
        whole = cs.reshape(cs.DM(flat), r, c)
        compare(ctx, cs.DM(v), whole, what + ' as a matrix')
        compare(ctx, v.cast(), whole, what + ': cast()')
        ctx.expect(tuple(v.shape) == (r, c), lambda: '%s: shape %s' % (what, v.shape))
        for w, exp in elems:
            got = R.flatten(v[R.real_word(w[1:], ce)] if len(w) > 1 else v())
            for a, b in zip(got, R.flatten(exp)):
                compare(ctx, a, R.values_of(b, flat), '%s, reading %s' % (what, w))

    for proto in range(6):
        flat = F.tags(ref.size)
        v = view(scn['form'], cs.reshape(cs.DM(flat), r, c))
        w = pickle.loads(pickle.dumps(v, proto))
        what = 'view through protocol %d' % proto
        check(w, flat, what)
        f2 = list(flat)
        for k, (x, exp) in enumerate(elems):
            y = x + [0] if len(x) < 2 else x
            w[R.real_word(y[1:], ce)] = 500.5 + k
            f2 = RW.Writer(ref).write(f2, y, 500.5 + k)[0]
        check(w, f2, 'written ' + what)
        check(v, flat, 'original after writes to the ' + what)
        check(pickle.loads(pickle.dumps(w, proto)), f2, what + ' twice')
        # a prefix of a value
        s = R.real_struct(scn['decl'], ce, 'struct')
        for can, m in ref.slots:
            for k in range(1, len(can) + 1):
                a = s(cs.DM(flat))
                p = a.prefix[can[:k]]
                q = pickle.loads(pickle.dumps(p, proto))
                for x in (p, q):
                    got, exp = R.flatten(x[can[k:]] if can[k:] else x()), R.flatten(ref.read(can))
                    for g, e in zip(got, exp):
                        compare(ctx, g, R.values_of(e, flat), 'prefix %s through protocol %d' % (can[:k], proto))
                    if not isinstance(x(), (list, dict)):
                        compare(ctx, cs.DM(x.cast()), R.values_of(ref.read(can[:k]), flat), 'prefix %s through protocol %d: cast()' % (can[:k], proto))
                q[can[k:] + ((0,) if k == len(can) else ())] = 7.5
                compare(ctx, a.cat, cs.DM(flat), 'original after a write through the loaded prefix')
                f3 = RW.Writer(ref).write(list(flat), list(can) + ([0] if k == len(can) else []), 7.5)[0]
                for g, e in zip(R.flatten(q()), R.flatten(ref.read(can[:k]))):
                    compare(ctx, g, R.values_of(e, f3), 'loaded prefix %s after a write' % (can[:k],))
                ctx.step()
        ctx.state(proto)
        ctx.trace()


HOPS = ['pickle a', 'pickle b', 'deepcopy b from a', 'pickle decl', 'write a', 'write b', 'cast b']


def run_hist(scn, ctx, ref):
    ends = [ref.slots[0][0], ref.slots[-1][0]]
    for rest in itertools.product(range(len(HOPS)), repeat=scn['depth'] - 2):
        path = scn['first'] + list(rest)
        ctx.history = [HOPS[k] for k in path]
        s = R.real_struct(scn['decl'], ce, 'struct')
        fa, fb = F.tags(ref.size), F.tags(ref.size, 0.5)
        a, b = s(cs.DM(fa)), s(cs.DM(fb))
        n = 0
        for k in path:
            op = HOPS[k]
            n += 1
            ctx.step()
            if op == 'pickle a':
                a = pickle.loads(pickle.dumps(a))
            elif op == 'pickle b':
                b = pickle.loads(pickle.dumps(b, 2))
            elif op == 'deepcopy b from a':
                b, fb = copy.deepcopy(a), fa
            elif op == 'pickle decl':
                s = pickle.loads(pickle.dumps(s))
            elif op == 'write a':
                a[ends[0]] = 1000.5 + n
                fa = RW.Writer(ref).write(fa, list(ends[0]), 1000.5 + n)[0]
            elif op == 'write b':
                b[ends[1]] = 2000.5 + n
                fb = RW.Writer(ref).write(fb, list(ends[1]), 2000.5 + n)[0]
            elif op == 'cast b':
                fb = F.tags(ref.size, 0.75)
                b = s(cs.DM(fb))
            ctx.state((tuple(fa), tuple(fb), op))
        check_value(ctx, a, ref, fa, 'a after %s' % ctx.history)
        check_value(ctx, b, ref, fb, 'b after %s' % ctx.history)
        check_decl(ctx, s, ref, 'declaration after %s' % ctx.history)
        ctx.trace()
