"""Exact rational arithmetic for polynomial interpolation on float nodes."""
import itertools
from fractions import Fraction as Fr
import numpy as np


def fr(x):
    return [Fr(float(v)) for v in np.atleast_1d(x)]


class Lagrange(object):
    """Lagrange basis on the given float nodes, exactly."""

    def __init__(self, tau):
        self.t = fr(tau)
        self.n = len(self.t)
        self.w = []
        for j in range(self.n):
            v = Fr(1)
            for r in range(self.n):
                if r != j:
                    v *= self.t[j] - self.t[r]
            self.w.append(1 / v)
        self._coef = None

    def row(self, x):
        """Values of all basis polynomials at x."""
        x = x if isinstance(x, Fr) else Fr(float(x))
        out = []
        for j in range(self.n):
            v = self.w[j]
            for r in range(self.n):
                if r != j:
                    v *= x - self.t[r]
            out.append(v)
        return out

    def D(self):
        """Differentiation matrix."""
        n, t, w = self.n, self.t, self.w
        M = [[Fr(0)] * n for _ in range(n)]
        for j in range(n):
            for k in range(n):
                if j != k:
                    M[j][k] = w[k] / w[j] / (t[j] - t[k])
                    M[j][j] -= M[j][k]
        return M

    @property
    def coef(self):
        """Monomial coefficients, ascending, of every basis polynomial."""
        if self._coef is None:
            self._coef = []
            for j in range(self.n):
                c = [self.w[j]]
                for r in range(self.n):
                    if r != j:
                        c = [(c[k - 1] if k > 0 else 0) - (self.t[r] * c[k] if k < len(c) else 0) for k in range(len(c) + 1)]
                self._coef.append([Fr(v) for v in c])
        return self._coef

    def integral(self, j, x):
        """Integral of basis polynomial j from 0 to x."""
        x = Fr(x)
        return sum(c / (k + 1) * x ** (k + 1) for k, c in enumerate(self.coef[j]))

    def size(self, j, x):
        """Bound on the magnitude of the terms of the expanded polynomial j at x."""
        x = abs(float(x))
        v = 1.0
        for r in range(self.n):
            if r != j:
                v *= (x + abs(float(self.t[r]))) / abs(float(self.t[j] - self.t[r]))
        return v


def polyval(c, x):
    """Ascending coefficients, exactly."""
    v = Fr(0)
    for a in reversed(c):
        v = v * x + a
    return v


GRID = [-1.0, 0.0, 0.25, 0.5, 1.0, 2.0, 3.5]


def node_sets(sizes, points=GRID, all_orders=4):
    """Subsets of the points; every order up to size all_orders, else rotations and reversal."""
    for n in sizes:
        if n <= all_orders:
            for s in itertools.permutations(points, n):
                yield list(s)
        else:
            for s in itertools.combinations(points, n):
                for k in range(n):
                    yield list(s[k:] + s[:k])
                yield list(reversed(s))


def queries(tau):
    """Nodes, points near nodes on both sides, between and outside, near and far."""
    t = sorted(float(v) for v in tau)
    h = (t[-1] - t[0]) or 1.0
    q = list(map(float, tau))
    for v in t:
        for d in (1e-3, 1e-6, 1e-9):
            q += [v - d * h, v + d * h]
    q += [(a + b) / 2 for a, b in zip(t, t[1:])] + [a + 0.3 * (b - a) for a, b in zip(t, t[1:])] + [a + 0.6180339887498949 * (b - a) for a, b in zip(t, t[1:])]
    q += [t[0] - 0.1 * h, t[-1] + 0.1 * h, t[0] - h, t[-1] + h, t[-1] + 0.77 * h]
    return q
