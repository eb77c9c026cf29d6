"""Catalogue of structure declarations shared by the structure checks."""
import itertools

SP = {'sp': [2, 3, [[0, 0], [1, 1], [0, 2]]]}
SPL = {'sp': [3, 3, [[0, 0], [1, 0], [2, 0], [1, 1], [2, 2]]]}
SPT = {'sp': [3, 3, [[0, 0], [1, 1], [2, 2], [0, 1], [1, 0], [1, 2], [2, 1]]]}
SPE = {'sp': [2, 2, []]}

INNER = {'e': [{'n': 'p'}, {'n': 'q', 'sh': 2}]}
INNER_R = {'e': [{'n': 'p', 'sh': 2}, {'n': 'q', 'rep': 2}]}
INNER_SP = {'e': [{'n': 'm', 'sh': SP}, {'n': 'p'}]}
INNER_ROW = {'e': [{'n': 'p', 'sh': [1, 3]}, {'n': 'q', 'sh': [2, 2]}, {'n': 'r', 'sh': [1, 3]}]}
DEEP = {'e': [{'n': 'u', 'st': INNER, 'rep': 2}, {'n': 'v', 'sh': [2, 2]}]}


def E(n, **k):
    d = {'n': n}
    d.update(k)
    return d


def S(*items, **k):
    d = {'e': [{'g': list(i)} if isinstance(i, tuple) else i for i in items]}
    d.update(k)
    return d


# Entry kinds, without a name
KINDS = {
    'scalar': {}, 'vec3': {'sh': 3}, 'mat23': {'sh': [2, 3]}, 'row': {'sh': [1, 3]}, 'lst1': {'sh': [2]},
    'sparse': {'sh': SP}, 'lower': {'sh': SPL}, 'nonz': {'sh': SPE}, 'zero': {'sh': 0}, 'zerocol': {'sh': [2, 0]},
    'rep1': {'rep': 1}, 'rep2': {'rep': 2}, 'rep3v': {'rep': [3], 'sh': 2}, 'rep0': {'rep': 0}, 'rep12': {'rep': 12},
    'rep22': {'rep': [2, 2]}, 'rep23m': {'rep': [2, 3], 'sh': [2, 2]}, 'rep122': {'rep': [1, 2, 2]},
    'rep2sp': {'rep': 2, 'sh': SP}, 'nest': {'st': INNER}, 'nest2': {'st': INNER, 'rep': 2},
    'nest22': {'st': INNER_R, 'rep': [2, 2]}, 'nestsp': {'st': INNER_SP, 'rep': 2}, 'deep': {'st': DEEP},
    'deep2': {'st': DEEP, 'rep': 2}, 'symm': {'sh': [3, 3], 'ty': 'symm'},
    'symmr': {'sh': [2, 2], 'ty': 'symm', 'rep': 2}, 'shs': {'ss': [INNER, INNER_R]}, 'shs1': {'ss': [INNER], 'ss1': 1},
    'shsi': {'ss': [INNER, 2], 'rep': 2}, 'shst': {'ss': [INNER]},
    'symmsp': {'sh': SPT, 'ty': 'symm', 'rep': 2}, 'nonz1': {'sh': {'sp': [1, 1, []]}},
    'reprow': {'rep': 2, 'sh': [1, 3]}, 'nestrow': {'st': INNER_ROW, 'rep': 2},
    'nestsym': {'st': {'e': [{'n': 'S', 'sh': [2, 2], 'ty': 'symm'}, {'n': 'p'}]}, 'rep': 2},
}


def K(kind, name):
    d = {'n': name}
    d.update(KINDS[kind])
    return d


def singles(kinds):
    return [S(K(k, 'a')) for k in kinds]


def pairs(kinds):
    return [S(K(a, 'a'), K(b, 'b')) for a, b in itertools.product(kinds, repeat=2)]


def groups(kinds, names=('a', 'b')):
    return [S(tuple(K(k, n) for k, n in zip(ks, names))) for ks in itertools.product(kinds, repeat=len(names))]


def inside(kinds):
    """All pairs of entries inside a nested structure, which has at least one part."""
    return [S(E('k'), E('n', st=S(K(a, 'a'), K(b, 'b')), rep=2)) for a, b in itertools.product(kinds, repeat=2) if (a, b) != ('rep0', 'rep0')]


def nested(depth):
    """A chain of nested structures with an entry on both sides at every level."""
    d = S(E('l', sh=2), E('r'))
    for k in range(depth):
        d = S(E('l%d' % k), E('n%d' % k, st=d, **({'rep': 2} if k % 2 else {})), E('r%d' % k, sh=2))
    return d


# Larger ones: many entries, many repetitions, ranks and levels, names which are prefixes of others
LARGE = [
    S(*[E('e%d' % k, sh=1 + k % 3) for k in range(12)]),
    S(*[E('e%d' % k, rep=1 + k % 2) for k in range(12)], o=['e%d' % (5 * k % 12) for k in range(12)]),
    S(E('a', rep=[2, 2, 2, 2]), E('b')),
    S(E('a', rep=[2, 1, 2, 3], sh=2), E('b')),
    S(E('a', sh=[11, 12]), E('b', rep=13)),
    S(E('b'), E('a', rep=[12, 2], sh=2)),
    nested(4),
    S(tuple(E('g%d' % k, rep=12 - 2 * k, sh=1 + k % 2) for k in range(5)), E('z')),
    S(E('a', rep=2, st=S(E('b', rep=11, st=S(E('c'), E('d', sh=2)))))),
    S(E('n', sh=11), E('nn', sh=2), E('n1', rep=11), E('n10')),
    S(E('x 1'), E('cat', sh=2), E('t', rep=2), E('0'), E('keys', st=S(E('size'), E('t', sh=2), E('\u03b1_\u03b2')))),
]
