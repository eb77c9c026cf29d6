"""Exhaustive generation of power-index words for a reference structure, up to a budget
of unusual tokens per word (every level offers a small set of plain tokens for free)."""
import itertools
import refstruct as R

ALL = {'s': [None, None, None]}


def sl(*a):
    return {'s': list(a)}


def dim_tokens(s):
    """(plain, unusual) tokens of a repeat dimension of size s."""
    plain = [0, -1, ALL] if s else [ALL]
    if s > 1:
        plain.append({'l': [s - 1, 0]})
    odd = [s - 1, -s, s, -s - 1, {'np': 0}, {'np': -1}, sl(1, None, None), sl(None, None, 2), sl(None, None, -1),
           sl(None, -1, None), sl(0, 0, None), sl(-2, None, None), sl(None, s + 3, None), {'l': []}, {'l': [0]},
           {'l': [-1]}, {'l': [0, 0]}, {'l': [s]}, {'l': [0, -s - 1]}, {'nd': 1}, {'f': 'catv'}, {'f': 'rev'},
           {'f': 'first'}, {'d': 1}, {'dots': 1}, {'set': ['a']}, 'zz', {'raw': 'None'}]
    return plain, [t for t in odd if t not in plain]


def struct_tokens(st):
    names = st.keys
    plain = [(n, [n]) for n in names] + [({'dots': 1}, names), ({'d': 1}, names)]
    odd = [({'nd': 1}, None), ({'set': sorted(names[:2])}, names[:2]), ({'l': list(reversed(names))}, names[-1:]),
           ({'l': [names[0], names[0]] if names else []}, names[:1]), ({'l': []}, None), ({'set': names[-1:]}, names[-1:]),
           ('zz', None), (0, None), (ALL, None), ({'l': ['zz']}, None), ({'set': ['zz']}, None),
           ({'l': [0]}, None), ({'f': 'catv'}, 'same'), ({'f': 'rev'}, 'same'), ({'f': 'first'}, 'same'), ({'raw': 'None'}, None)]
    return plain, odd


def leaf_words(e, level):
    """Trailing matrix indices; level 0 none unusual, 1 some, 2 all."""
    r, c = e.mat.sp.shape
    n = r * c
    plain = [[]]
    if n:
        plain.append([0])
    if level == 0:
        return plain
    one = [n - 1, -1, -n, n, -n - 1, ALL, sl(1, None, None), sl(None, None, 2), sl(None, None, -1), sl(0, 0, None),
           {'l': [0]}, {'l': [n - 1, 0]}, {'l': [-1]}, {'l': [0, 0]}, {'l': [n]}, {'l': []}, {'np': 0}]
    rows = [0, r - 1, -1, r, ALL, sl(1, None, None), {'l': [r - 1, 0]}, {'l': [0]}]
    cols = [0, c - 1, -1, c, ALL, sl(1, None, None), {'l': [c - 1, 0]}]
    # casadi itself reads out of bounds for slices which start past the end
    one = [t for t in one if slice_ok(t, n)]
    rows = [t for t in rows if slice_ok(t, r)]
    cols = [t for t in cols if slice_ok(t, c)]
    out = plain + [[t] for t in one]
    out += [[a, b] for a in rows for b in cols]
    out += [[{'f': 'T'}], [{'f': 'catv'}], [{'f': 'T'}, ALL, 0], [{'nd': 1}], [0, 0, 0], ['zz'], [{'l': ['zz']}]]
    ss = e.mat.shapestruct
    if ss is not None:
        dele = []
        for k in (0, 1):
            if isinstance(ss[k], R.RStruct):
                t = []
                for w in words(ss[k], 0, 40):
                    if all(isinstance(x, (str, int)) for x in w):
                        t += [{'ix': w}, {'ixf': w}]
                        if len(w) == 1:
                            t += [w[0], {'l': [w[0]]}]
                    else:
                        t.append({'ixf': w})
                if len(ss[k].keys) > 1:
                    t.append({'l': list(reversed(ss[k].keys))})
                dele.append(t)
            else:
                dele.append([])
        out += [[t] for t in dele[0]]
        out += [[a, b] for a in dele[0] for b in [0, ALL] + dele[1]]
        out += [[a, b] for a in [0, ALL] for b in dele[1]]
    uniq = []
    for w in out:
        if w not in uniq:
            uniq.append(w)
    return uniq


def slice_ok(t, n):
    return not (isinstance(t, dict) and 's' in t) or (n > 0 and (t['s'][0] or 0) < n)


def words(st, budget, cap=None, mini=False):
    """All words over st with at most `budget` unusual tokens, without duplicates.
    mini: next to an unusual token, only two plain tokens per level (last element, all)."""
    seen = set()
    out = []
    gen = list(_struct(st, budget, mini and budget > 0))
    if mini and budget:
        gen = list(_struct(st, 0, False)) + gen
    for w in gen:
        k = repr(w)
        if w and k not in seen:
            seen.add(k)
            out.append(w)
            if cap and len(out) >= cap:
                break
    return out


def _struct(st, b, mini):
    plain, odd = struct_tokens(st)
    if mini:
        plain = plain[len(st.keys) - 1:-1]
    for t, nxt in plain:
        yield [t]
        for n in dict.fromkeys([nxt[0], nxt[-1]] if nxt else []):
            for w in _entry(st.entries[n], st.entries[n].dims, b, mini):
                yield [t] + w
    if b > 0:
        for t, nxt in odd:
            yield [t]
            if nxt == 'same':
                for w in _struct(st, b - 1, mini):
                    yield [t] + w
            elif nxt:
                for n in dict.fromkeys([nxt[0], nxt[-1]]):
                    for w in _entry(st.entries[n], st.entries[n].dims, b - 1, mini):
                        yield [t] + w


def _entry(e, dims, b, mini):
    yield []
    if not dims:
        if e.sub is not None:
            for w in _struct(e.sub, b, mini):
                yield w
        else:
            for w in leaf_words(e, b):
                yield w
        return
    plain, odd = dim_tokens(dims[0])
    if mini:
        plain = [t for t in plain if t in (-1, ALL)]
    for t in plain:
        for w in _entry(e, dims[1:], b, mini):
            yield [t] + w
    if b > 0:
        for t in odd:
            same = isinstance(t, dict) and 'f' in t
            for w in _entry(e, dims if same else dims[1:], b - 1, mini):
                yield [t] + w


def dense_tokens(s, t=False):
    """Every integer, slice and short list of positions around a repeat dimension of size s."""
    ends = [None] + list(range(-s - 2, s + 3))
    out = list(range(-s - 2, s + 2))
    out += [sl(a, b, c) for a in ends for b in ends for c in (None, 1, 2, 3, -1, -2, -3)]
    pos = list(range(-s - 1, s + 1))
    for n in (1, 2, 3, 4)[:4 if t else 3]:
        out += [{'l': list(p)} for p in itertools.product(pos, repeat=n)]
    return out


def dense_words(st, name, t=False):
    """All words over one repeated entry with a dense token at one level (others: first, last, all, reversed)."""
    e = st.entries[name]
    for k in range(len(e.dims)):
        for tok in dense_tokens(e.dims[k], t):
            for rest in itertools.product(*[[0, ALL] if j != k else [tok] for j in range(len(e.dims))]):
                yield [name] + list(rest)
                if e.sub is not None:
                    yield [name] + list(rest) + [e.sub.keys[-1]]
