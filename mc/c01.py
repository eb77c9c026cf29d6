"""C01: the layout of a structure is one bijection, described alike by every look-up."""
import itertools
import casadi as cs
import casadi_extras.structure3 as ce
import refstruct as R
from decls import S, E, K, KINDS, LARGE, INNER, INNER_R, DEEP, singles, inside, pairs, groups

BOUNDS = {
    'quick': 'all structures of 1 entry over 36 entry kinds (shape, sparsity, repeats up to rank 3, nesting up to depth 3, symm, shapestruct), all pairs, all groups of 2, all triples and groups of 3 over 12 kinds, entry after/before a group, all 6 orders of 3 entries over 12 kinds (also with an interleaving tuple in the order); 11 larger ones (12 entries, repeats of rank 4, up to 13 repetitions, nesting depth 5, groups of 5, shape 11 x 12) alone and nested; all pairs of entry kinds inside a repeated nested structure, groups of 2 over 11 kinds inside a nested one; every position looked up in every mode; 53 malformed declarations and out-of-range look-ups',
    'thorough': 'as quick',
}
ASSUMPTIONS = ['nested structures with no part at all (no entries, or every entry repeated 0 times) are not covered']

GK = [k for k in KINDS]
MED = ['scalar', 'mat23', 'sparse', 'rep2', 'rep3v', 'nest2', 'rep22', 'rep23m', 'nest22', 'deep', 'symmr', 'rep0']


def scenarios(tier):
    out = [{'bad': k} for k in sorted(BAD)]
    ds = singles(GK) + [S()] + [{'e': [], 'o': []}]
    ds += pairs(GK) + groups(GK)
    ks = MED
    for a, b, c in itertools.product(ks, repeat=3):
        ds.append(S(K(a, 'a'), K(b, 'b'), K(c, 'c')))
        ds.append(S((K(a, 'a'), K(b, 'b'), K(c, 'c'))))
        ds.append(S(K(a, 'a'), (K(b, 'b'), K(c, 'c'))))
        ds.append(S((K(a, 'a'), K(b, 'b')), K(c, 'c')))
        for o in itertools.permutations('abc'):
            ds.append(S(K(a, 'a'), K(b, 'b'), K(c, 'c'), o=list(o)))
        ds.append(S(K(a, 'a'), K(b, 'b'), K(c, 'c'), o=['c', 'a', 'b']))
        ds.append(S(K(a, 'a'), K(b, 'b'), K(c, 'c'), o=['b', ['c', 'a']]))
        ds.append(S(K(a, 'z'), K(b, 'y'), K(c, 'x')))
    # groups inside nested structures, nested orders, more members
    g = S((E('p', rep=2), E('q', rep=3, sh=2)))
    ds += [S(E('n', st=g, rep=2), E('m')), S((E('n', st=g, rep=2), E('m', rep=3))),
           S(E('n', st=S(E('p'), E('q', sh=2), o=['q', 'p']), rep=2)),
           S(E('n', st=S(E('w', st=g, rep=2)), rep=[2, 2]), (E('x', rep=2), E('y', rep=4), E('w', rep=1), E('v'))),
           S(*[E('n%d' % i, sh=1 + i % 3) for i in range(12)])]
    ds += inside(GK) + [S(E('n', st=d), E('m')) for d in groups([k for k in MED if k != 'rep0'])]
    ds += LARGE + [S(E('m', sh=[6, 6], ty='symm'), E('a'))] + [S(E('n', st=d, rep=2), E('m')) for d in LARGE]
    for d in ds:
        out.append({'decl': d})
    return out


def structs(decl):
    yield 'struct', R.real_struct(decl, ce, 'struct')


def prefixes(ref):
    """Canonical indices of whole nested structures, and of repeated entries."""
    out = []
    for can, m in ref.slots:
        for n in range(1, len(can)):
            if isinstance(can[n], str) and can[:n] not in out:
                out.append(can[:n])
    return out


def run(scn, ctx):
    if 'bad' in scn:
        return run_bad(scn['bad'], ctx)
    decl = scn['decl']
    ref = R.RStruct(decl)
    has_symm = 'symm' in repr(decl)
    for kind in ('struct', 'struct_symSX', 'struct_symMX'):
        s = R.real_struct(decl, ce, kind)
        ctx.expect(s.size == ref.size, lambda: '%s: size %s instead of %s' % (kind, s.size, ref.size))
        ctx.expect(list(s.keys()) == ref.keys, lambda: '%s: keys %s' % (kind, s.keys()))
        ctx.expect(tuple(s.shape) == (ref.size, 1), '%s: shape' % kind)
        if kind != 'struct_symMX':
            ctx.expect(s.sparsity() == cs.Sparsity.dense(ref.size, 1), '%s: sparsity' % kind)
        if kind != 'struct':
            ctx.expect(tuple(s.cat.shape) == (ref.size, 1) or ref.size == 0, '%s: flat vector has shape %s' % (kind, s.cat.shape))
        ctx.step()
    s = R.real_struct(decl, ce, 'struct')
    inst = s(0) if ref.size else s
    k = 0
    every = {0: [], 1: [], 2: []}
    for can, m in ref.slots:
        im = s.i[can]
        ctx.expect(R.same_matrix(im, ref.pos[can]), lambda: 'index matrix of %s is %s instead of %s' % (can, im, ref.pos[can]))
        ctx.expect(R.same_matrix(inst.i[can], ref.pos[can]), lambda: 'index matrix of %s through an instance' % (can,))
        if ref.pos[can].is_dense():
            fl = s.f[can]
            ctx.expect(list(fl) == [int(x) for x in ref.pos[can].nonzeros()], lambda: 'flat index of %s is %s' % (can, fl))
        for r, c in zip(m.sp.row(), m.sp.get_col()):
            want = {0: can, 1: can + (r + c * m.sp.size1(),), 2: can + (r, c)}
            for mode in (0, 1, 2):
                for src in (s, inst):
                    got = src.getCanonicalIndex(k, extraMode=mode)
                    ctx.expect(tuple(got) == want[mode] and len(got) == len(want[mode]),
                               lambda: 'position %d, mode %d: canonical index %s instead of %s' % (k, mode, got, want[mode]))
                lab = s.getLabel(k, extraMode=mode)
                ctx.expect(lab == '[' + ','.join(str(x) for x in want[mode]) + ']', lambda: 'label %s' % lab)
                every[mode].append(want[mode])
                if mode:
                    back = s.i[want[mode]]
                    ctx.expect(tuple(back.shape) == (1, 1) and float(back) == k, lambda: '%s looks up %s instead of %d' % (want[mode], back, k))
                    fb = s.f[want[mode]]
                    ctx.expect(list(fb) == [k], lambda: 'flat look-up of %s gives %s' % (want[mode], fb))
                ctx.step()
            ctx.expect(tuple(s.getCanonicalIndex(k)) == want[1], 'default extra mode')
            ctx.expect(s.getLabel(k) == '[' + ','.join(str(x) for x in want[1]) + ']', 'default extra mode of a label')
            ctx.state((k, want[2]))
            k += 1
    for mode in (0, 1, 2):
        got = [tuple(x) for x in s.canonicalIndices(extraMode=mode)]
        ctx.expect(got == every[mode], lambda: 'canonicalIndices(%d): %s' % (mode, got))
        lab = s.labels(extraMode=mode)
        ctx.expect(lab == ['[' + ','.join(str(x) for x in w) + ']' for w in every[mode]], lambda: 'labels(%d): %s' % (mode, lab))
    ctx.expect([tuple(x) for x in s.canonicalIndices()] == every[1] and list(s.labels()) == [
        '[' + ','.join(str(x) for x in w) + ']' for w in every[1]], 'default extra mode of the list forms')
    for w in prefixes(ref) + [(n,) for n in ref.keys]:
        exp = ref_positions(ref, w)
        got = s.i[w]
        ctx.expect(R.skeleton(got) == R.skeleton(exp), lambda: 'index matrices of %s: %s instead of %s' % (w, got, exp))
        ctx.expect(all(R.same_matrix(a, b) for a, b in zip(R.flatten(got), R.flatten(exp))), lambda: 'index matrices of %s: %s instead of %s' % (w, got, exp))
        if all(x.is_dense() for x in R.flatten(exp)):
            fl = s.f[w]
            ctx.expect(list(fl) == [int(v) for x in R.flatten(exp) for v in x.nonzeros()], lambda: 'flat index of %s: %s' % (w, fl))
        ctx.step()
    for i in (-1, ref.size, ref.size + 5, -ref.size - 1):
        for f in (s.getCanonicalIndex, s.getLabel):
            must_raise(ctx, lambda: f(i), 'look-up of position %d of %d' % (i, ref.size))
            must_raise(ctx, lambda: f(i, extraMode=0), 'look-up of position %d of %d' % (i, ref.size))
    for n in ref.keys:
        e = ref.entries[n]
        if e.sub is not None:
            ctx.expect(s.getStruct(n).size == e.sub.size, 'getStruct(%s)' % n)
            ctx.expect(list(s.getStruct(n).keys()) == e.sub.keys, 'getStruct(%s)' % n)
        else:
            must_raise(ctx, lambda: s.getStruct(n), 'getStruct of an entry without structure')
    must_raise(ctx, lambda: s.getStruct('no such'), 'getStruct of an unknown name')
    ctx.trace()
    ctx.outcome((ref.size, len(ref.slots)))


def ref_positions(ref, w):
    """Positions as stored (no mirroring of symmetric entries)."""
    saved = ref.leafpos
    ref.leafpos = lambda can, e: ref.pos[can]
    try:
        return ref.read(w)
    finally:
        ref.leafpos = saved


def must_raise(ctx, f, what):
    ctx.step()
    try:
        r = f()
    except Exception:
        ctx.outcome('raised')
        return
    ctx.fail('%s is accepted: %s' % (what, r))


def _conflict(**kw):
    return lambda: ce.entry('a', **kw)


BAD = {
    'no name': lambda: ce.entry(),
    'unnamed argument': lambda: ce.entry('a', 3),
    'unknown keyword': lambda: ce.entry('a', shap=3),
    'unknown keyword 2': lambda: ce.entry('a', shape=3, foo=1),
    'struct+shape': _conflict(struct=ce.struct(['p']), shape=3),
    'struct+shapestruct': _conflict(struct=ce.struct(['p']), shapestruct=ce.struct(['p'])),
    'sym+shape': _conflict(sym=cs.SX.sym('x', 3), shape=3),
    'sym+repeat': _conflict(sym=cs.SX.sym('x', 3), repeat=3),
    'sym+expr': _conflict(sym=cs.SX.sym('x', 3), expr=cs.SX.sym('x', 3)),
    'expr+shape': _conflict(expr=cs.SX.sym('x', 3), shape=3),
    'expr+repeat': _conflict(expr=cs.SX.sym('x', 3), repeat=3),
    'shape ()': _conflict(shape=()),
    'shape []': _conflict(shape=[]),
    'shape 3 dims': _conflict(shape=(1, 2, 3)),
    'shape float': _conflict(shape=2.5),
    'shape string': _conflict(shape='3'),
    'shape None': _conflict(shape=None),
    'shape negative': _conflict(shape=-1),
    'repeat float': _conflict(repeat=2.5),
    'repeat string': _conflict(repeat='2'),
    'repeat mixed list': _conflict(repeat=[2, 1.5]),
    'repeat mixed list 2': _conflict(repeat=[2.5, 1]),
    'repeat None': _conflict(repeat=None),
    'repeat nested': _conflict(repeat=[[2]]),
    'repeat tuple': _conflict(repeat=(2, 3)),
    'shapestruct list': _conflict(shapestruct=[ce.struct(['p'])]),
    'shapestruct ()': _conflict(shapestruct=()),
    'shapestruct 3': _conflict(shapestruct=(1, 2, 3)),
    'shapestruct int': _conflict(shapestruct=3),
    'shapestruct strings': _conflict(shapestruct=('a', 'b')),
    'shapestruct mixed': _conflict(shapestruct=(ce.struct(['p']), 'b')),
    'type': _conflict(shape=(2, 2), type='foo'),
    'symm not square': _conflict(shape=(2, 3), type='symm'),
    'symm vector': _conflict(shape=3, type='symm'),
    'sym not symbolic': _conflict(sym=cs.SX.sym('x', 3) + 1),
    'sym MX': _conflict(sym=cs.MX.sym('x', 3)),
    'sym number': _conflict(sym=3),
    'expr number': _conflict(expr=3),
    'expr list of numbers': _conflict(expr=[[3]]),
    'not a list': lambda: ce.struct('ab'),
    'not a list tuple': lambda: ce.struct(('a', 'b')),
    'not a list entry': lambda: ce.struct(ce.entry('a')),
    'not a list symSX': lambda: ce.struct_symSX(('a', 'b')),
    'duplicates': lambda: ce.struct(['a', 'b', 'a']),
    'duplicates in group': lambda: ce.struct(['a', ('b', 'a')]),
    'duplicates in one group': lambda: ce.struct([('b', 'b')]),
    'duplicates MX': lambda: ce.struct_symMX(['a', 'a']),
    'unknown in order': lambda: ce.struct(['a', 'b'], order=['a', 'b', 'c']),
    'unknown in order 2': lambda: ce.struct(['a', 'b'], order=['a', 'c']),
    'unknown in order tuple': lambda: ce.struct(['a', 'b'], order=['a', 'b', ('a', 'c')]),
    'order and group': lambda: ce.struct(['c', ('a', 'b')], order=['a', 'b', 'c']),
    'order lacks an entry': lambda: ce.struct(['a', 'b'], order=['a']),
    'order repeats an entry': lambda: ce.struct(['a', 'b'], order=['a', 'b', 'a']),
}


def run_bad(key, ctx):
    must_raise(ctx, BAD[key], 'declaration with %s' % key)
    ctx.state(key)
    ctx.trace()
