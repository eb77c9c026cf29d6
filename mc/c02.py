"""C02: a power-index read returns exactly the addressed elements, in every flavour."""
import casadi as cs
import casadi_extras.structure3 as ce
import flavours as F
import refstruct as R
import words as W
from decls import S, E, K, KINDS, LARGE, INNER, INNER_R, INNER_SP, DEEP, SP, singles, inside

BOUNDS = {
    'quick': '43 declarations, all 64 pairs of 8 kinds inside a nested structure (4 flavours, plain tokens) and 11 larger ones (12 entries, repeats of rank 4, up to 13 repetitions, nesting depth 5; plain tokens only except for DM) (every entry kind, mixes, groups, orders, nesting depth 3) x 8 flavours; every power index with at most one unusual token (all repeat-index, name, marker, callable, delegate and matrix-index tokens of words.py) at any level and the plain tokens at all other levels; every split of the index into prefix and rest (DM, MX); 9 declarations with repetitions up to 5 x 4 flavours x every integer, every slice with bounds up to 2 beyond the range and steps up to 3 in both directions and every list of up to 3 positions',
    'thorough': 'as quick with up to two unusual tokens per index for numeric and SX structures, and pairs of entry kinds',
}

EXTRA = [
    S(K('rep2', 'a'), K('mat23', 'b')),
    S(K('nest2', 'a'), K('nest2', 'b'), K('scalar', 'c')),
    S((K('rep2', 'a'), K('rep3v', 'b')), K('sparse', 'c')),
    S((K('nest2', 'a'), K('rep3v', 'b'))),
    S(K('vec3', 'b'), K('rep22', 'a'), o=['a', 'b']),
    S(K('shs', 'm'), K('shsi', 'n')),
    S(K('symm', 'm'), K('rep2', 'n')),
]
# Repetitions indexed with every integer, slice and list of up to three positions
DENSE = [S(E('a', rep=n), E('b')) for n in (1, 2, 3, 4, 5)] + [S(E('b', sh=2), E('a', rep=3, sh=2)), S(E('a', rep=[2, 3])),
         S((E('a', rep=3), E('b', rep=2))), S(E('a', st=INNER, rep=3))]

# Pairs of entries of these kinds inside a nested structure
WITHIN = ['scalar', 'vec3', 'row', 'mat23', 'sparse', 'rep2', 'nest', 'symm']


def decls(tier):
    ds = [d for d in singles(KINDS)] + EXTRA
    if tier == 'thorough':
        ks = ['scalar', 'mat23', 'sparse', 'rep2', 'rep3v', 'nest2', 'rep22', 'symmr']
        ds += [S(K(a, 'a'), K(b, 'b')) for a in ks for b in ks]
    return ds


def big(d):
    return len(W.words(R.RStruct(d), 0)) > 200


def scenarios(tier):
    out = []
    for d in decls(tier):
        for f in F.NAMES:
            if f.startswith('struct_') and not F.expr_ok(d):
                continue
            b = 2 if tier == 'thorough' and f in ('DM', 'SX') else 1
            parts = 8 if b == 2 else 1
            for k in range(parts):
                out.append({'decl': d, 'flavour': f, 'budget': b, 'part': [k, parts], 'mini': tier == 'quick' and big(d)})
    for d in LARGE:
        for f in ('DM', 'MX', 'symSX', 'struct_MX'):
            if f.startswith('struct_') and not F.expr_ok(d):
                continue
            out.append({'decl': d, 'flavour': f, 'budget': int(f == 'DM'), 'part': [0, 1], 'mini': True})
    for d in inside(WITHIN):
        for f in ('DM', 'MX', 'symSX', 'struct_MX'):
            if not f.startswith('struct_') or F.expr_ok(d):
                out.append({'decl': d, 'flavour': f, 'budget': 0, 'part': [0, 1], 'mini': True})
    for d in DENSE:
        for f in ('DM', 'MX', 'symSX', 'struct_MX'):
            out.append({'decl': d, 'flavour': f, 'dense': 1 + (tier == 'thorough'), 'part': [0, 1]})
    return out


def observe(read):
    try:
        return read(), None
    except Exception as e:
        return None, e


def run(scn, ctx):
    decl = scn['decl']
    ref = R.RStruct(decl)
    flat = F.tags(ref.size)
    fl = F.build(scn['flavour'], decl, ref, ce, flat)
    s = fl.obj
    if 'dense' in scn:
        ws = [w for n in ref.keys if ref.entries[n].dims for w in W.dense_words(ref, n, scn['dense'] > 1)]
    else:
        ws = W.words(ref, scn['budget'], mini=scn['mini'])
    k, n = scn['part']
    ws = ws[k::n]
    sofar, exps, outs = [], [], []

    def compare(tag, got, err, exp):
        ctx.step()
        if exp is None:
            # nothing of that name or position: no element may come back
            ctx.expect(err is not None or not any(x.numel() for x in R.flatten(got)), lambda: '%s: nothing is addressed, but the read gives %s' % (tag, got))
            ctx.outcome('raised')
            return
        ctx.expect(err is None, lambda: '%s: raised %s: %s' % (tag, type(err).__name__, chain(err)))
        ctx.expect(R.skeleton(got) == R.skeleton(exp), lambda: '%s: got %s, expected the positions %s' % (tag, got, exp))
        a, b = aligned(got, exp)
        outs.extend(a)
        exps.extend((tag, R.values_of(x, flat)) for x in b)
        ctx.outcome(R.skeleton(exp))

    for w in ws:
        rw = R.real_word(w, ce)
        try:
            exp = ref.read(w)
        except R.Bad:
            exp = None
        got, err = observe(lambda: s[rw])
        ctx.state((w,))
        compare(str(w), got, err, exp)
        if scn['flavour'] in ('DM', 'MX') and len(w) < 4:
            for j in range(1, len(rw) + 1):
                if j == len(rw):
                    got, err = observe(lambda: s.prefix[rw]())
                else:
                    got, err = observe(lambda: s.prefix[rw[:j]][rw[j:]])
                compare('%s split at %d' % (w, j), got, err, exp)
        if len(w) == 1 and not isinstance(rw[0], tuple):
            got, err = observe(lambda: s[rw[0]])
            compare('%s without tuple' % w, got, err, exp)
        if scn['flavour'] == 'DM' and 'symm' not in repr(decl) and exp is not None:
            got, err = observe(lambda: s.i[rw])
            ctx.expect(err is None, lambda: 'index matrix of %s raised %s' % (w, chain(err)))
            ctx.expect(R.skeleton(got) == R.skeleton(exp) and all(R.same_matrix(a, b) for a, b in zip(*aligned(got, exp))),
                       lambda: 'index matrix of %s is %s instead of %s' % (w, got, exp))
            if nested_lists(exp) and all(x.is_dense() for x in R.flatten(exp)) and 'f' not in repr(w):
                got, err = observe(lambda: s.f[rw])
                ctx.expect(err is None, lambda: 'flat index of %s raised %s' % (w, chain(err)))
                ctx.expect(list(got) == [int(v) for x in R.flatten(exp) for v in x.nonzeros()], lambda: 'flat index of %s is %s' % (w, got))
    vals = fl.eval(outs + [s.cat])
    for v, (tag, e) in zip(vals, exps):
        ctx.expect(R.same_matrix(v, e), lambda: '%s: got %s instead of %s' % (tag, v, e))
    if ref.size:
        ctx.expect(R.same_matrix(vals[-1], cs.DM(flat)), 'reading changed the object: %s' % vals[-1])
    ctx.trace()


def aligned(got, exp):
    """Leaves of two containers with the same skeleton, in the same order."""
    if isinstance(exp, dict):
        a, b = [], []
        for k in exp:
            x, y = aligned(got[k], exp[k])
            a += x
            b += y
        return a, b
    if isinstance(exp, (list, tuple)):
        a, b = [], []
        for g, e in zip(got, exp):
            x, y = aligned(g, e)
            a += x
            b += y
        return a, b
    return [got], [exp]


def nested_lists(r):
    return not isinstance(r, dict) and (not isinstance(r, list) or all(nested_lists(x) for x in r))


def chain(e):
    out = []
    while e is not None and len(out) < 6:
        out.append(str(e)[:200])
        e = e.__cause__
    return ' <- '.join(out)
