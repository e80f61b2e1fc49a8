"""Exact first and second derivatives of the reference parameterisation.

A Jet is a number with its gradient and Hessian; the reference maps below are
evaluated on jets, so that derivatives are compared with exact ones even
where finite differences would drown in rounding.
"""
import itertools
import math

import numpy as np

from mc import spec as S


class Jet:
    __slots__ = ('v', 'g', 'h')

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @staticmethod
    def variables(x):
        n = len(x)
        return [Jet(float(x[i]), np.eye(n)[i], np.zeros((n, n)))
                for i in range(n)]

    @staticmethod
    def of(x, n):
        return x if isinstance(x, Jet) else Jet(
            float(x), np.zeros(n), np.zeros((n, n)))

    def chain(self, v, d1, d2):
        return Jet(v, d1 * self.g,
                   d1 * self.h + d2 * np.outer(self.g, self.g))

    def __add__(self, o):
        o = Jet.of(o, len(self.g))
        return Jet(self.v + o.v, self.g + o.g, self.h + o.h)
    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.v, -self.g, -self.h)

    def __sub__(self, o):
        return self + (-Jet.of(o, len(self.g)))

    def __rsub__(self, o):
        return Jet.of(o, len(self.g)) - self

    def __mul__(self, o):
        o = Jet.of(o, len(self.g))
        cross = np.outer(self.g, o.g)
        return Jet(self.v * o.v, self.v * o.g + o.v * self.g,
                   self.v * o.h + o.v * self.h + cross + cross.T)
    __rmul__ = __mul__

    def inv(self):
        r = 1.0 / self.v
        return self.chain(r, -r * r, 2 * r ** 3)

    def __truediv__(self, o):
        return self * Jet.of(o, len(self.g)).inv()

    def __rtruediv__(self, o):
        return Jet.of(o, len(self.g)) * self.inv()

    def exp(self):
        e = math.exp(self.v)
        return self.chain(e, e, e)

    def log(self):
        return self.chain(math.log(self.v), 1.0 / self.v, -1.0 / self.v ** 2)

    def logistic(self):
        """1 / (1 + exp(-x)), its derivatives without cancellation."""
        e = math.exp(-abs(self.v))
        small, big = e / (1 + e), 1 / (1 + e)
        p, q = (big, small) if self.v >= 0 else (small, big)
        return self.chain(p, p * q, p * q * (q - p))


def unconstrain_num(x, lb, ub):
    if lb > -S.INF and ub < S.INF:
        return (x - lb).log() - (ub - x).log()
    if lb > -S.INF:
        return (x - lb).log()
    if ub < S.INF:
        return -((ub - x).log())
    return x


def constrain_num(x, lb, ub):
    if lb > -S.INF and ub < S.INF:
        return x.logistic() * (ub - lb) + lb
    if lb > -S.INF:
        return x.exp() + lb
    if ub < S.INF:
        return ub - (-x).exp()
    return x


def constrain_simplex(xs):
    """p_i = 1 / sum_j exp(x_j - x_i), with x_0 = 0: every entry and its
    derivatives without cancellation in the sum."""
    k = len(xs) + 1
    n = len(xs[0].g)
    full = [Jet.of(0.0, n)] + list(xs)
    top = max(j.v for j in full)
    e = [math.exp(j.v - top) for j in full]
    tot = math.fsum(e)
    p = [t / tot for t in e]
    # 1 - p_i as the sum of the others.
    rest = [math.fsum(e[:i] + e[i + 1:]) / tot for i in range(k)]
    out = []
    for i in range(k):
        d1 = [p[i] * rest[i] if a == i else -p[i] * p[a] for a in range(k)]
        g = sum((d1[a] * full[a].g for a in range(k)), np.zeros(n))
        h = np.zeros((n, n))
        for a in range(k):
            for b in range(k):
                # d2 p_i / dx_a dx_b
                if a == b == i:
                    t = p[i] * rest[i] * (rest[i] - p[i])
                elif a == b:
                    t = -p[i] * p[a] * (rest[a] - p[a])
                elif a == i or b == i:
                    o = b if a == i else a
                    t = -p[i] * p[o] * (rest[i] - p[i])
                else:
                    t = 2 * p[i] * p[a] * p[b]
                h += t * np.outer(full[a].g, full[b].g)
            h += d1[a] * full[a].h
        out.append(Jet(p[i], g, h))
    return out


def constrain_psd(xs, n, lb):
    """L L^T + lb I, L lower triangular with exponentials on its diagonal,
    its entries listed row by row."""
    low = {}
    it = iter(xs)
    for i in range(n):
        for j in range(i + 1):
            x = next(it)
            low[i, j] = x.exp() if i == j else x
    out = []
    for i in range(n):
        for j in range(n):
            t = sum((low[i, k] * low[j, k] for k in range(min(i, j) + 1)),
                    Jet.of(lb if i == j else 0.0, len(xs[0].g)))
            out.append(t)
    return out


def fold_free(spec, x):
    """Jets of the flat (non-free) coordinates as functions of the free
    ones."""
    xs = Jet.variables(x)
    out = [None] * S.length(spec, False)
    for c in S.components(spec):
        mine = xs[c.free0:c.free0 + c.freen]
        s = c.spec
        if type(s) is S.Num:
            vals = [constrain_num(mine[0], s.lb, s.ub)]
        elif type(s) is S.Spx:
            vals = constrain_simplex(mine)
        else:
            vals = constrain_psd(mine, s.n, s.lb)
        out[c.flat0:c.flat0 + c.flatn] = vals
    return out


def flatten_free(spec, v):
    """Jets of the free coordinates as functions of the flat ones; only for
    numeric arrays and simplexes."""
    xs = Jet.variables(v)
    out = [None] * S.length(spec, True)
    for c in S.components(spec):
        mine = xs[c.flat0:c.flat0 + c.flatn]
        s = c.spec
        if type(s) is S.Num:
            vals = [unconstrain_num(mine[0], s.lb, s.ub)]
        elif type(s) is S.Spx:
            vals = [t.log() - mine[0].log() for t in mine[1:]]
        else:
            raise TypeError(s)
        out[c.free0:c.free0 + c.freen] = vals
    return out


def logdet_unfreeing(spec, v):
    """Jet of the log absolute determinant of unfreeing numeric arrays, as a
    function of the flat value."""
    xs = Jet.variables(v)
    tot = Jet.of(0.0, len(v))
    for c in S.components(spec):
        x, s = xs[c.flat0], c.spec
        if s.lb > -S.INF:
            tot = tot + (x - s.lb).log()
        if s.ub < S.INF:
            tot = tot + (s.ub - x).log()
        if s.lb > -S.INF and s.ub < S.INF:
            tot = tot - math.log(s.ub - s.lb)
    return tot
