"""Exact piecewise polynomials given by nodal values on every interval."""
import itertools
import numpy as np
import exact as X
from exact import Fr

BASES = {
    'one': [0.5], 'zero': [0.0], 'ends': [0.0, 1.0], 'ends_rev': [1.0, 0.0], 'inner2': [0.25, 0.7], 'radau2': [1 / 3, 1.0],
    'three': [0.0, 0.3, 1.0], 'three_mix': [0.6, 0.0, 1.0], 'cheb3': [0.0, 0.25, 0.75, 1.0], 'inner4': [0.1127016653792583, 0.35, 0.6180339887498949, 0.95],
    'five': [0.0, 0.1, 0.5, 0.8, 1.0], 'six': [0.0, 0.15, 0.35, 0.6, 0.9, 1.0],
}
LENGTHS = [1.0, 0.25, 3.0, 0.1]
STARTS = [0.0, -2.5, 100.0]
LONG = [[1.0, 0.25, 3.0, 0.1, 0.7], [0.1, 0.2, 0.4, 0.8, 1.6, 3.2], [0.5] * 11, [0.5 + 0.125 * (7 * k % 5) for k in range(16)]]
# very short next to long ones, lengths with many digits
SHORT = [[1e-4], [1e-4, 1.0], [1.0, 1e-4], [1.0, 1e-5, 0.5], [1e3, 1.0], [1.23456789012345, 1 / 3, 0.20203050891044216]]
LONG_BASES = ['one', 'ends', 'radau2', 'three_mix', 'cheb3']

# alike in number, ends or lengths
ALIKE = [{'breaks': v} for v in ([0., 1.], [0., 2.], [1., 2.], [0., 1., 3.], [0., 2., 3.], [1., 2., 4.])]


def grids(n):
    """Unequal grids: n lengths out of the alphabet, plus equal ones."""
    for ls in itertools.product(LENGTHS[:3], repeat=n) if n <= 2 else itertools.permutations(LENGTHS, n):
        yield list(ls)
    if n > 2:
        yield [0.5] * n


def breaks(start, lengths):
    return [float(v) for v in np.cumsum([start] + list(lengths))]


def piece(t, q, side):
    """Interval containing q; at a break the one on the requested side, clipped."""
    n = len(t) - 1
    if side == 'right':
        k = sum(1 for v in t if v <= q) - 1
    else:
        k = sum(1 for v in t if v < q) - 1
    return min(max(k, 0), n - 1)


def query_points(t):
    q = list(t)
    for a, b in zip(t, t[1:]):
        h = b - a
        q += [a + 1e-7 * h, b - 1e-7 * h, a + h / 2, a + 0.3 * h, a + 0.85 * h, a + 0.6180339887498949 * h]
    h0, h1 = t[1] - t[0], t[-1] - t[-2]
    q += [t[0] - 0.2 * h0, t[0] - 1e-7 * h0, t[0] - h0, t[-1] + 0.2 * h1, t[-1] + 1e-7 * h1, t[-1] + h1]
    return [float(v) for v in q]


def whole(t):
    """Whole numbers on the grid and at most one interval beyond."""
    a, b = t[0] - (t[1] - t[0]), t[-1] + (t[-1] - t[-2])
    return [v for v in range(int(np.ceil(a)), int(np.floor(b)) + 1) if v <= t[-1] or v - t[-1] < 3][:16]


class Exact(object):
    """Unit data: row (i, j) is 1 at node j of interval i; all derivatives by polynomials."""

    def __init__(self, t, tau):
        self.t, self.tau = t, tau
        self.L = X.Lagrange(tau)
        self.n = len(tau)
        self._rows, self._tols = {}, {}
        self.normD = max(1.0, max(sum(abs(float(v)) for v in r) for r in self.L.D()))

    def rel(self, i, q):
        a, b = Fr(self.t[i]), Fr(self.t[i + 1])
        return (Fr(q) - a) / (b - a)

    def row(self, i, q, deriv=0):
        """Derivatives of the n basis polynomials of interval i at time q."""
        if (i, q, deriv) in self._rows:
            return self._rows[i, q, deriv]
        h = Fr(self.t[i + 1]) - Fr(self.t[i])
        s = self.rel(i, q)
        out = self._rows[i, q, deriv] = []
        for j in range(self.n):
            c = list(self.L.coef[j])
            for _ in range(deriv):
                c = [k * c[k] for k in range(1, len(c))]
            out.append(float(X.polyval(c, s) / h ** deriv))
        return out

    def tol(self, i, q, deriv=0):
        """Rounding of the query relative to the interval, amplified by the basis."""
        if (i, q, deriv) in self._tols:
            return self._tols[i, q, deriv]
        h = self.t[i + 1] - self.t[i]
        m = max(abs(self.t[i]), abs(self.t[i + 1]), abs(q), h)
        s = abs(float(self.rel(i, q)))
        size = max(self.L.size(j, max(s, 1.0)) for j in range(self.n))
        self._tols[i, q, deriv] = v = self.n ** 2 * size * (self.normD / h) ** deriv * (1e-13 + 1e-15 * m / h * self.normD)
        return v
