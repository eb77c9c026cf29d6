"""All flavours of a structured object holding the same data, for one declaration."""
import casadi as cs
import refstruct as R


def tags(n, base=0.0):
    """Distinct values in no particular order, of both signs and full precision, some very small or large."""
    v = [(base + 1.25 + 3 * (k * 6183 % 10007) + (k * k % 7) / 16.0) / 7 * (1 - 2 * (k * k % 5 == 1)) for k in range(n)]
    return [x * {6: 1e-12, 10: 1e14}.get(k % 13, 1) for k, x in enumerate(v)]


class Flavour(object):
    """obj: structured object; args/vals: symbols and the values which make its flat vector equal `flat`."""

    def __init__(self, obj, args, vals, flat):
        self.obj = obj
        self.args = args
        self.vals = vals
        self.flat = flat

    def eval(self, mats):
        """Numeric values of a list of matrices of this flavour, patterns kept."""
        if not mats:
            return []
        if all(isinstance(m, cs.DM) for m in mats):
            return mats
        mats = [cs.MX(m) if isinstance(m, cs.DM) and self.mx() else m for m in mats]
        r = []
        for k in range(0, len(mats), 2000):
            r += cs.Function('f', self.args, mats[k:k + 2000]).call(self.vals)
        return r

    def mx(self):
        return any(isinstance(a, cs.MX) for a in self.args)


def expr_parts(ref, make, flat):
    """Per top-level entry: nested list of symbols, and the symbols with their values."""
    args, vals, exprs = [], [], {}
    for n in ref.keys:
        e = ref.entries[n]

        def rec(dims, idx):
            if dims:
                return [rec(dims[1:], idx + (i,)) for i in range(dims[0])]
            can = (n,) + idx
            if e.sub is not None:
                pos = ref.whole(can)
                sp = cs.Sparsity.dense(e.sub.size, 1)
            else:
                pos = ref.pos[can]
                sp = pos.sparsity()
            x = make('_'.join(map(str, can)), sp)
            args.append(x)
            vals.append(cs.DM(sp, [flat[int(k)] for k in pos.nonzeros()]))
            return x
        exprs[n] = rec(e.dims, ())
    return exprs, args, vals


def expr_decl(decl, ce, exprs):
    """Entries with expr= instead of repeat/shape."""
    def one(d):
        kw = {'expr': exprs[d['n']]}
        if 'st' in d:
            kw['struct'] = R.real_struct(d['st'], ce, 'struct')
        if 'ss' in d:
            ss = [R.real_struct(x, ce, 'struct') if isinstance(x, dict) else x for x in d['ss']]
            kw['shapestruct'] = tuple(ss)
        if 'ty' in d:
            kw['type'] = d['ty']
        return ce.entry(d['n'], **kw)
    return [tuple(one(e) for e in it['g']) if 'g' in it else one(it) for it in decl['e']]


NAMES = ['DM', 'SX', 'MX', 'symSX', 'symMX', 'struct_SX', 'struct_MX', 'struct_MX_mutable']


def build(name, decl, ref, ce, flat, cache=None):
    n = ref.size
    v = cs.DM(flat) if n else cs.DM(0, 1)
    if name == 'DM':
        return Flavour(R.real_struct(decl, ce, 'struct')(v), [], [], flat)
    if name in ('SX', 'MX'):
        x = getattr(cs, name).sym('x', n)
        return Flavour(R.real_struct(decl, ce, 'struct')(getattr(cs, name)(x)), [x], [v], flat)
    if name in ('symSX', 'symMX'):
        s = R.real_struct(decl, ce, 'struct_' + name)
        return Flavour(s, [s.cat], [v], flat)
    T = cs.SX if name == 'struct_SX' else cs.MX
    if cache is not None and 'exprs' in cache:
        exprs, args, vals = cache['exprs']
    else:
        exprs, args, vals = expr_parts(ref, lambda nm, sp: T.sym(nm, sp), flat)
        if cache is not None:
            cache['exprs'] = exprs, args, vals
    items = expr_decl(decl, ce, exprs)
    return Flavour(getattr(ce, name)(items), args, vals, flat)


def expr_ok(decl):
    """Declarations the expression flavours can express."""
    def ok(e):
        rep = e.get('rep', [])
        rep = rep if isinstance(rep, list) else [rep]
        return 0 not in rep and e.get('ty') is None
    es = [x for it in decl['e'] for x in (it['g'] if 'g' in it else [it])]
    return all(ok(e) for e in es) and not decl.get('o') and len(es) > 0
