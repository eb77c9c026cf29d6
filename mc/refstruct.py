"""Reference model of structures: declarations as plain data, layout, reads and writes.

Declaration (JSON-able):
    struct := {"e": [item, ...], "o": order or absent}
    item   := entry | {"g": [entry, ...]}                  (interleaving group)
    entry  := {"n": name, "rep": int | [int, ...], "sh": shape, "st": struct,
               "ss": [struct | int, ...], "ty": "symm"}    (all but n optional)
    shape  := int | [r, c] | {"sp": [r, c, [[i, j], ...]]} (sparse pattern)

Index tokens (JSON-able):
    "name" | int | {"s": [start, stop, step]} | {"l": [...]} | {"dots": 1} | {"d": 1}
    | {"nd": 1} | {"set": [...]} | {"f": fname} | {"np": int}
    | {"ix": word} | {"ixf": word}                         (delegated indices)
"""
import casadi as cs
import numpy as np


class Bad(Exception):
    """The reference model rejects the operation."""


def matdata(sp, vals):
    """DM with the pattern sp and the given values (explicit zeros are kept)."""
    return cs.DM(sp, list(vals))


# ----------------------------------------------------------------- declarations

class RMat(object):
    def __init__(self, sp, full=None, symm=False, shapestruct=None):
        self.sp = sp                # stored pattern
        self.symm = symm
        self.shapestruct = shapestruct


class REntry(object):
    def __init__(self, d):
        self.name = d['n']
        rep = d.get('rep', [])
        self.dims = list(rep) if isinstance(rep, list) else [rep]
        self.sub = RStruct(d['st']) if 'st' in d else None
        self.mat = None
        if self.sub is None:
            ss = None
            if 'ss' in d:
                ss = [RStruct(x) if isinstance(x, dict) else x for x in d['ss']]
                if len(ss) == 1:
                    ss = ss + [1]
            sp = shape_sparsity(d['sh']) if 'sh' in d else (
                cs.Sparsity.dense(*[x.size if isinstance(x, RStruct) else x for x in ss]) if ss else cs.Sparsity.dense(1, 1))
            symm = d.get('ty') == 'symm'
            if symm:
                full = sp
                sp = cs.Sparsity.triplet(sp.size1(), sp.size2(),
                                         [r for r, c in zip(sp.row(), sp.get_col()) if r <= c],
                                         [c for r, c in zip(sp.row(), sp.get_col()) if r <= c])
                self.mat = RMat(sp, symm=True, shapestruct=ss)
                self.mat.full = full
            else:
                self.mat = RMat(sp, shapestruct=ss)

    def leaves(self, prefix):
        """Canonical indices below this entry at a complete repeat index."""
        if self.sub is None:
            return [(prefix, self.mat)]
        return self.sub.leaves(prefix)

    def chunks(self, prefix):
        """Per value of the first repeat dimension, the leaves in order."""
        def rec(dims, idx):
            if not dims:
                return self.leaves(prefix + (self.name,) + idx)
            out = []
            for i in range(dims[0]):
                out += rec(dims[1:], idx + (i,))
            return out
        if not self.dims:
            return [self.leaves(prefix + (self.name,))]
        return [rec(self.dims[1:], (i,)) for i in range(self.dims[0])]


def shape_sparsity(sh):
    if isinstance(sh, dict):
        r, c, ij = sh['sp']
        return cs.Sparsity.triplet(r, c, [i for i, j in ij], [j for i, j in ij])
    if isinstance(sh, int):
        return cs.Sparsity.dense(sh, 1)
    return cs.Sparsity.dense(*sh) if len(sh) == 2 else cs.Sparsity.dense(sh[0], 1)


class RStruct(object):
    def __init__(self, decl):
        self.decl = decl
        self.entries = {}
        self.declared = []
        order = []
        for item in decl['e']:
            if 'g' in item:
                order.append(tuple(e['n'] for e in item['g']))
                es = item['g']
            else:
                order.append(item['n'])
                es = [item]
            for e in es:
                self.entries[e['n']] = REntry(e)
                self.declared.append(e['n'])
        if decl.get('o') is not None:
            order = [tuple(x) if isinstance(x, list) else x for x in decl['o']]
        self.order = order
        self.keys = []
        for o in order:
            self.keys += list(o) if isinstance(o, tuple) else [o]
        # Layout
        self.slots = self.leaves(())
        self.pos = {}
        self.mats = {}
        k = 0
        for can, m in self.slots:
            self.pos[can] = matdata(m.sp, range(k, k + m.sp.nnz()))
            self.mats[can] = m
            k += m.sp.nnz()
        self.size = k

    def leaves(self, prefix):
        out = []
        for o in self.order:
            if isinstance(o, tuple):
                ch = [self.entries[n].chunks(prefix) for n in o]
                for k in range(max([len(c) for c in ch] or [0])):
                    for c in ch:
                        if k < len(c):
                            out += c[k]
            else:
                for c in self.entries[o].chunks(prefix):
                    out += c
        return out

    # -- positions addressed by a power index: nested containers of DM of positions

    def whole(self, can):
        """Positions of a nested structure at canonical index can, as a column."""
        v = []
        for c, m in self.slots:
            if c[:len(can)] == can:
                v += list(self.pos[c].nonzeros())
        return cs.DM(v) if v else cs.DM(0, 1)

    def read(self, word):
        try:
            return self._struct(list(word), (), self)
        except Bad:
            raise
        except Exception as e:      # raised by a callable of the index
            raise Bad(str(e))

    def _struct(self, w, can, st):
        if not w:
            if not can:
                raise Bad('empty index')
            return self.whole(can)
        p, rest = w[0], w[1:]
        if isinstance(p, str):
            if p not in st.entries:
                raise Bad('unknown name')
            return self._entry(rest, can + (p,), st.entries[p], st.entries[p].dims)
        if isinstance(p, dict):
            if 'dots' in p:
                return [self._entry(rest, can + (k,), st.entries[k], st.entries[k].dims) for k in st.keys]
            if 'd' in p:
                return {k: self._entry(rest, can + (k,), st.entries[k], st.entries[k].dims) for k in st.declared}
            if 'nd' in p:
                return {k: self._entry([p], can + (k,), st.entries[k], st.entries[k].dims) for k in st.declared}
            if 'set' in p:
                if any(k not in st.entries for k in p['set']):
                    raise Bad('unknown name')
                return {k: self._entry(rest, can + (k,), st.entries[k], st.entries[k].dims) for k in p['set']}
            if 'l' in p:
                if any(not isinstance(k, str) or k not in st.entries for k in p['l']):
                    raise Bad('unknown name')
                return [self._entry(rest, can + (k,), st.entries[k], st.entries[k].dims) for k in p['l']]
            if 'f' in p:
                return FUN[p['f']](self._struct(rest, can, st))
        raise Bad('not allowed in a structure')

    def _entry(self, w, can, e, dims):
        if not w:
            w = [{'s': [None, None, None]}] * len(dims)
        if not dims:
            if e.sub is not None:
                return self._struct(w, can, e.sub)
            return self._leaf(w, can, e)
        p, rest = w[0], w[1:]
        s = dims[0]
        ints = expand(p, s)
        if ints is not None:
            if isinstance(ints, int):
                return self._entry(rest, can + (norm(ints, s),), e, dims[1:])
            return [self._entry(rest, can + (norm(i, s),), e, dims[1:]) for i in ints]
        if isinstance(p, dict) and 'nd' in p:
            return [self._entry([p], can + (i,), e, dims[1:]) for i in range(s)]
        if isinstance(p, dict) and 'f' in p:
            return FUN[p['f']](self._entry(rest, can, e, dims))
        raise Bad('not allowed in a repeat')

    def leafpos(self, can, e):
        m = self.pos[can]
        if e.mat.symm:
            n = m.size1()
            trip = [(r, c, v) for r, c, v in zip(m.sparsity().row(), m.sparsity().get_col(), m.nonzeros())]
            trip += [(c, r, v) for r, c, v in trip if r != c]
            trip.sort(key=lambda t: (t[1], t[0]))
            sp = cs.Sparsity.triplet(n, n, [t[0] for t in trip], [t[1] for t in trip])
            m = matdata(sp, [t[2] for t in trip])
        return m

    def _leaf(self, w, can, e):
        m = self.leafpos(can, e)
        return self.extra(m, w, e)

    def extra(self, m, w, e):
        if not w:
            return m
        p = w[0]
        if isinstance(p, dict) and 'f' in p:
            return FUN[p['f']](self.extra(m, w[1:], e))
        if isinstance(p, dict) and 'nd' in p:
            return m
        if len(w) > 2:
            raise Bad('too many matrix indices')
        a = [delegate(x, e.mat.shapestruct, k) for k, x in enumerate(w)]
        try:
            return m[a[0]] if len(a) == 1 else m[a[0], a[1]]
        except Exception:
            raise Bad('matrix index')


def norm(i, s):
    if not -s <= i < s:
        raise Bad('out of range')
    return i % s if s else i


def expand(p, s):
    """Integers selected by an int/slice/list token, or None."""
    if isinstance(p, bool):
        return None
    if isinstance(p, int):
        return p
    if isinstance(p, dict):
        if 'np' in p:
            return p['np']
        if 's' in p:
            return list(range(*slice(*p['s']).indices(s)))
        if 'l' in p and all(isinstance(x, int) for x in p['l']):
            return list(p['l'])
    return None


def delegate(x, ss, k):
    """Matrix index token -> casadi index, names meaning rows/columns of shape structures."""
    if isinstance(x, str):
        x = {'ixf': [x]}
    elif isinstance(x, dict) and 'l' in x and x['l'] and all(isinstance(i, str) for i in x['l']):
        x = {'ixf': [x]}
    if isinstance(x, dict) and ('ix' in x or 'ixf' in x):
        if ss is None or k >= len(ss) or not isinstance(ss[k], RStruct):
            raise Bad('no shape structure')
        r = ss[k].read(x['ix'] if 'ix' in x else x['ixf'])
        if 'ix' in x:
            if not isinstance(r, cs.DM):
                raise Bad('list of index matrices')
            return r
        if has_dict(r):
            raise Bad('keys are not indices')
        return [int(v) for m in flatten(r) for v in m.nonzeros()]
    if isinstance(x, dict):
        if 's' in x:
            return slice(*x['s'])
        if 'l' in x:
            return list(x['l'])
        if 'np' in x:
            return x['np']
    if isinstance(x, int):
        return x
    raise Bad('not a matrix index')


def flatten(r):
    """Leaves of nested lists/dicts, in order, those of dicts by key."""
    if isinstance(r, dict):
        return [x for k in sorted(r) for x in flatten(r[k])]
    if isinstance(r, (list, tuple)):
        return [x for v in r for x in flatten(v)]
    return [r]


FUN = {
    'catv': lambda r: cs.vertcat(*[cs.vec(x) for x in flatten(r)]),
    'T': lambda r: cs.transpose(r) if not isinstance(r, (list, dict)) else [cs.transpose(x) for x in flatten(r)],
    'rev': lambda r: list(reversed(r)) if isinstance(r, list) else r,
    'first': lambda r: flatten(r)[0],
    'id': lambda r: r,
}


def rmap(f, r):
    """Map over the leaves, keeping the containers."""
    if isinstance(r, dict):
        return {k: rmap(f, v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return [rmap(f, v) for v in r]
    return f(r)


def skeleton(r):
    """Container shape and matrix shapes/patterns, hashable."""
    if isinstance(r, dict):
        return ('d', tuple(sorted((k, skeleton(v)) for k, v in r.items())))
    if isinstance(r, (list, tuple)):
        return ('l', tuple(skeleton(v) for v in r))
    if not hasattr(r, 'sparsity'):
        return ('?', type(r).__name__)
    sp = r.sparsity()
    return ('m', sp.shape, tuple(sp.row()), tuple(sp.colind()))


# ------------------------------------------------------- building the real objects

def real_token(t, ce):
    """JSON token -> object used as an index of the real code."""
    if isinstance(t, dict):
        if 's' in t:
            return slice(*t['s'])
        if 'l' in t:
            return list(t['l'])
        if 'dots' in t:
            return Ellipsis
        if 'd' in t:
            return {}
        if 'nd' in t:
            return ce.nesteddict
        if 'set' in t:
            return set(t['set'])
        if 'f' in t:
            return FUN[t['f']]
        if 'np' in t:
            return np.int64(t['np'])
        if 'ix' in t:
            return ce.index[tuple(real_token(x, ce) for x in t['ix'])]
        if 'ixf' in t:
            return ce.indexf[tuple(real_token(x, ce) for x in t['ixf'])]
        if 'raw' in t:
            return eval(t['raw'])
    return t


def real_word(w, ce):
    return tuple(real_token(t, ce) for t in w)


def real_shape(sh):
    if isinstance(sh, dict):
        return shape_sparsity(sh)
    if isinstance(sh, list):
        return tuple(sh)
    return sh


def real_entry(d, ce, kind, **extra):
    kw = {}
    if 'rep' in d:
        kw['repeat'] = list(d['rep']) if isinstance(d['rep'], list) else d['rep']
    if 'sh' in d:
        kw['shape'] = real_shape(d['sh'])
    if 'st' in d:
        kw['struct'] = real_struct(d['st'], ce, kind)
    if 'ss' in d:
        ss = [real_struct(x, ce, kind) if isinstance(x, dict) else x for x in d['ss']]
        kw['shapestruct'] = ss[0] if d.get('ss1') else tuple(ss)
    if 'ty' in d:
        kw['type'] = d['ty']
    kw.update(extra)
    return ce.entry(d['n'], **kw)


def real_struct(decl, ce, kind):
    """kind: a constructor name of the library (struct, struct_symSX, struct_symMX)."""
    items = [tuple(real_entry(e, ce, kind) for e in it['g']) if 'g' in it else real_entry(it, ce, kind) for it in decl['e']]
    order = decl.get('o')
    if order is not None:
        order = [tuple(o) if isinstance(o, list) else o for o in order]
        return getattr(ce, kind)(items, order=order)
    return getattr(ce, kind)(items)


# ----------------------------------------------------------------- comparing

def values_of(posm, flat):
    """Expected DM for a matrix of positions."""
    return cs.DM(posm.sparsity(), [flat[int(k)] for k in posm.nonzeros()])


def same_matrix(a, b, tol=0.0):
    """Equal shape, pattern and values."""
    if tuple(a.shape) != tuple(b.shape) or a.sparsity() != b.sparsity():
        return False
    x, y = np.array(a.nonzeros(), dtype=float), np.array(b.nonzeros(), dtype=float)
    if tol == 0.0:
        return bool(np.array_equal(x, y, equal_nan=True))
    return bool(np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True))


def has_dict(r):
    return isinstance(r, dict) or (isinstance(r, list) and any(has_dict(x) for x in r))
