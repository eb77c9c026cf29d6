"""Reference semantics of power-index writes.

Payloads (JSON-able): number | {"m": [[row], ...]} | {"np": ...} | {"np1": [..]} | {"sp": [r, c, [[i, j, v], ...]]}
| {"l": [payload, ...]} | {"t": [...]} | {"rep": payload} | {"dict": {key: payload}} | {"inst": [decl, values]}
"""
import casadi as cs
import numpy as np
import refstruct as R
from refstruct import Bad


class Unspecified(Exception):
    pass


def dense(payload):
    """Payload at a leaf -> (shape, {(r, c): value}), or Bad."""
    if isinstance(payload, (int, float)):
        return (1, 1), {(0, 0): float(payload)}
    if 'm' in payload or 'np' in payload:
        rows = payload.get('m', payload.get('np'))
        c = len(rows[0]) if rows else 1
        return (len(rows), c), {(i, j): float(v) for i, r in enumerate(rows) for j, v in enumerate(r)}
    if 'np1' in payload:
        return (len(payload['np1']), 1), {(i, 0): float(v) for i, v in enumerate(payload['np1'])}
    if 'sp' in payload:
        r, c, ijv = payload['sp']
        d = {(i, j): 0.0 for i in range(r) for j in range(c)}
        d.update({(i, j): float(v) for i, j, v in ijv})
        return (r, c), d
    if 'l' in payload or 't' in payload:
        x = payload.get('l', payload.get('t'))
        if x and all(isinstance(v, (int, float)) for v in x):
            return (len(x), 1), {(i, 0): float(v) for i, v in enumerate(x)}
        raise Unspecified('list of matrices at a leaf: left to the conversions of casadi')
    if 'inst' in payload:
        v = payload['inst'][1]
        return (len(v), 1), {(i, 0): float(x) for i, x in enumerate(v)}
    raise Bad('not a matrix')


def unpack(payload, i):
    if isinstance(payload, dict):
        x = payload.get('l', payload.get('t'))
        if x is not None:
            if i >= len(x) or i < -len(x):
                raise Bad('too short')
            return x[i]
        if 'rep' in payload:
            return payload['rep']
    return payload


class Writer(object):
    """Distributes a payload: the k-th addressed element gets the k-th value."""

    def __init__(self, ref):
        self.ref = ref

    def write(self, flat, word, payload):
        """Returns (new flat, number of matrices addressed)."""
        self.flat = list(flat)
        self.count = 0
        try:
            self._struct(list(word), (), self.ref, payload)
        except Bad:
            raise
        return self.flat, self.count

    def assign(self, idx, payload):
        self.count += 1
        self._assign(idx, *dense(payload))

    def _assign(self, idx, shape, d):
        r, c = idx.shape
        if shape == (1, 1) and not (r, c) == (1, 1):
            d = {(i, j): d[0, 0] for i in range(r) for j in range(c)}
        elif shape != (r, c):
            if shape == (c, r) and min(shape) == 1:
                d = {(j, i): v for (i, j), v in d.items()}
            else:
                raise Bad('shape')
        sp = idx.sparsity()
        for i, j, k in zip(sp.row(), sp.get_col(), idx.nonzeros()):
            self.flat[int(k)] = d[i, j]

    def _struct(self, w, can, st, p):
        if not w:
            return self.assign(self.ref.whole(can), p)
        t, rest = w[0], w[1:]
        go = lambda k, rest, p: self._entry(rest, can + (k,), self.ent(st, k), self.ent(st, k).dims, p)
        if isinstance(t, str):
            return go(t, rest, p)
        if isinstance(t, dict):
            if 'dots' in t:
                for i, k in enumerate(st.keys):
                    go(k, rest, unpack(p, i))
                return
            if 'd' in t or 'nd' in t:
                rest = rest if 'd' in t else [t]
                if isinstance(p, dict) and 'dict' in p:
                    for k, v in p['dict'].items():
                        go(k, rest, v)
                else:
                    for k in st.declared:
                        go(k, rest, p)
                return
            if 'set' in t:
                if isinstance(p, dict) and 'dict' in p:
                    for k, v in p['dict'].items():
                        if k in t['set']:
                            go(k, rest, v)
                else:
                    for k in t['set']:
                        go(k, rest, p)
                return
            if 'l' in t:
                for i, k in enumerate(t['l']):
                    go(k, rest, unpack(p, i))
                return
            if 'f' in t:
                return self.assign(self.fun(t, self.ref._struct(rest, can, st)), p)
        raise Bad('not allowed in a structure')

    def ent(self, st, k):
        if k not in st.entries:
            raise Bad('unknown name')
        return st.entries[k]

    def fun(self, t, inner):
        try:
            r = R.FUN[t['f']](inner)
        except Exception as e:
            raise Bad(str(e))
        if not isinstance(r, cs.DM):
            raise Bad('not an index')
        return r

    def _entry(self, w, can, e, dims, p):
        if not w and dims:
            w = [{'s': [None, None, None]}] * len(dims)
        if not dims:
            if e.sub is not None:
                return self._struct(w, can, e.sub, p)
            return self._leaf(w, can, e, p)
        t, rest = w[0], w[1:]
        s = dims[0]
        ints = R.expand(t, s)
        if isinstance(ints, int):
            return self._entry(rest, can + (R.norm(ints, s),), e, dims[1:], p)
        if ints is not None:
            for k, i in enumerate(ints):
                self._entry(rest, can + (R.norm(i, s),), e, dims[1:], unpack(p, k))
            return
        if isinstance(t, dict) and 'nd' in t:
            for i in range(s):
                self._entry([t], can + (i,), e, dims[1:], unpack(p, i))
            return
        if isinstance(t, dict) and 'f' in t:
            return self.assign(self.fun(t, self.ref._entry(rest, can, e, dims)), p)
        raise Bad('not allowed in a repeat')

    def _leaf(self, w, can, e, p):
        if e.mat.symm:
            return self._symm(w, can, e, p)
        self.assign(self.ref.extra(self.ref.pos[can], w, e), p)

    def _symm(self, w, can, e, p):
        """Element (i, j) and (j, i) are one; a block must be given with its own pattern."""
        self.count += 1
        full = self.ref.leafpos(can, e)
        shape, d = dense(p)
        idx = self.ref.extra(full, w, e)
        self._assign(idx, shape, d)


def real(p, ce, leaf):
    """JSON payload -> object given to the real code; leaf converts matrices."""
    if isinstance(p, (int, float)):
        return p
    if 'm' in p:
        rows = p['m']
        return leaf(cs.DM(np.array(rows, dtype=float).reshape(len(rows), len(rows[0]) if rows else 1)))
    if 'np' in p:
        return np.array(p['np'], dtype=float)
    if 'np1' in p:
        return np.array(p['np1'], dtype=float)
    if 'sp' in p:
        r, c, ijv = p['sp']
        m = cs.DM(r, c)
        for i, j, v in ijv:
            m[i, j] = v
        return m
    if 'l' in p:
        return [real(x, ce, leaf) for x in p['l']]
    if 't' in p:
        return tuple(real(x, ce, leaf) for x in p['t'])
    if 'rep' in p:
        return ce.repeated(real(p['rep'], ce, leaf))
    if 'dict' in p:
        return {k: real(v, ce, leaf) for k, v in p['dict'].items()}
    if 'inst' in p:
        return R.real_struct(p['inst'][0], ce, 'struct')(cs.DM(p['inst'][1]))
    raise ValueError(p)


class Vals(object):
    """Supply of numbers, distinct except for zeros, of both signs and full precision."""

    def __init__(self, start):
        self.k = start

    def next(self):
        self.k += 1
        return 0.0 if self.k % 11 == 5 else (self.k + 0.5) / 3 * (1 - 2 * (self.k % 5 == 2))

    def mat(self, r, c):
        return {'m': [[self.next() for j in range(c)] for i in range(r)]}


def payloads(read, vals):
    """Payload alphabet for a word whose read gives `read` (nested containers of position matrices)."""
    out = [vals.next()]
    exact = build(read, vals, 'm')
    out.append(exact)
    if isinstance(read, cs.DM):
        r, c = read.shape
        if r * c:
            out.append({'np': vals.mat(r, c)['m']})
        if c == 1 and r > 1:
            out.append({'l': [vals.next() for i in range(r)]})
            out.append({'t': [vals.next() for i in range(r)]})
            out.append({'np1': [vals.next() for i in range(r)]})
        if min(r, c) == 1 and r != c:
            out.append(vals.mat(c, r))
        if min(r, c) > 1:
            if len(set(read.nonzeros())) == read.nnz():
                out.append({'sp': [r, c, [[0, 0, vals.next()], [r - 1, c - 1, vals.next()], [0, c - 1, vals.next()]]]})
            out.append(vals.mat(r * c, 1))
            out.append(vals.mat(c, r)) if r != c else None
        if r * c:
            out.append(vals.mat(r + 1, c))
            out.append(vals.mat(r, c + 1))
        out.append({'rep': vals.next()})
        out.append({'dict': {'a': vals.next()}})
    elif isinstance(read, dict):
        ks = list(exact['dict'])
        if ks:
            out.append({'dict': {ks[-1]: build(read[ks[-1]], vals, 'm')}})
            out.append({'dict': {k: build(read[k], vals, 'm') for k in reversed(ks)}})
        d = {k: build(read[k], vals, 'm') for k in ks[:1]}
        d['zz'] = vals.next()
        out.append({'dict': d})
        out.append({'dict': {}})
    else:
        n = len(read)
        out.append({'t': build(read, vals, 'm')['l']})
        out.append({'l': [vals.next() for i in range(n)]})
        if n:
            out.append({'rep': vals.next()})
            out.append({'rep': build(read[0], vals, 'm')})
            out.append({'l': build(read, vals, 'm')['l'][:-1]})
            out.append({'l': build(read, vals, 'm')['l'] + [vals.next()]})
            out.append({'l': [{'rep': vals.next()} for i in range(n)]})
            if isinstance(read[0], cs.DM):
                out.append(build(read[0], vals, 'm'))
                r, c = read[0].shape
                out.append({'l': [vals.mat(r + 1, c) for i in range(n)]})
            else:
                out.append(build(read[0], vals, 'm'))
    return out


def build(read, vals, kind):
    """Payload of exactly the shape of the read."""
    if isinstance(read, dict):
        return {'dict': {k: build(v, vals, kind) for k, v in read.items()}}
    if isinstance(read, list):
        return {'l': [build(v, vals, kind) for v in read]}
    r, c = read.shape
    if r * c == 0:
        return vals.next()
    return vals.mat(r, c)
