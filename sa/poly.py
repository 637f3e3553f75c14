"""Exact multivariate rational functions over named scalar symbols.

The abstract value of a scalar expression is the *formula* that the source
computes, normalised; no coordinates are ever substituted.
"""
from __future__ import annotations

from fractions import Fraction as F
from math import gcd


_MADD = {}


def _madd(a, b):
    k = (a, b)
    r = _MADD.get(k)
    if r is None:
        r = _MADD[k] = _madd_(a, b)
    return r


def _madd_(a, b):
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def integral(c):
    """plain int where possible (coefficients are ints or Fractions)"""
    if type(c) is int:
        return c
    c = F(c)
    return c.numerator if c.denominator == 1 else c


class Poly:
    __slots__ = ('t', '_h', '_c')

    def __init__(self, terms):
        self.t = {m: c for m, c in terms.items() if c}
        self._h = None
        self._c = None

    @staticmethod
    def const(c):
        return Poly({(): integral(c)})

    @staticmethod
    def var(name):
        return Poly({((name, 1),): 1})

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            r[m] = r.get(m, 0) + c
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            r[m] = r.get(m, 0) - c
        return Poly(r)

    def __mul__(self, o):
        if len(self.t) == 1 and () in self.t:
            k = self.t[()]
            return o if k == 1 else Poly({m: c * k for m, c in o.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _madd(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return Poly(r)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def is_zero(self):
        return not self.t

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_value(self):
        return self.t.get((), 0)

    def canonical(self):
        """(sign, primitive polynomial) with a positive leading coefficient."""
        if self._c is None:
            self._c = self._canonical()
        return self._c

    def _canonical(self):
        if not self.t:
            return 0, self
        g = 0
        den = 1
        for c in self.t.values():
            den = den * c.denominator // gcd(den, c.denominator)
        for c in self.t.values():
            g = gcd(g, int(c * den))
        lead = self.t[max(self.t)]
        s = 1 if lead > 0 else -1
        if den == g:
            return s, self if s > 0 else -self
        k = F(den, g) * s
        return s, Poly({m: integral(c * k) for m, c in self.t.items()})

    def variables(self):
        return {v for m in self.t for v, _ in m}

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m in sorted(self.t, reverse=True):
            c = self.t[m]
            mono = '*'.join(v if e == 1 else f'{v}^{e}' for v, e in m)
            if mono:
                out.append(mono if c == 1 else ('-' + mono if c == -1
                                                else f'{c}*{mono}'))
            else:
                out.append(str(c))
        return ' + '.join(out)


def exact_div(n, d):
    """the polynomial n / d if the division leaves no remainder"""
    names = sorted(n.variables() | d.variables())
    if not d.variables() <= n.variables():
        return None
    pos = {v: i for i, v in enumerate(names)}

    def vec(m):
        r = [0] * len(names)
        for v, e in m:
            r[pos[v]] = e
        return tuple(r)
    rem = {vec(m): c for m, c in n.t.items()}
    div = {vec(m): c for m, c in d.t.items()}
    lead = max(div)
    lc = div[lead]
    quo = {}
    while rem:
        m = max(rem)
        q = tuple(a - b for a, b in zip(m, lead))
        if min(q) < 0:
            return None
        k = integral(F(rem[m]) / lc)
        quo[q] = k
        for dm, dc in div.items():
            t = tuple(a + b for a, b in zip(q, dm))
            v = rem.get(t, 0) - k * dc
            if v:
                rem[t] = v
            else:
                rem.pop(t, None)
    return Poly({tuple((names[i], e) for i, e in enumerate(q) if e): c
                 for q, c in quo.items()})


ONE = Poly({(): 1})


class Rat:
    """num / den"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        if d is None or d is ONE:
            self.n, self.d = n, ONE
            return
        if n.is_zero():
            d = ONE
        elif d.is_const():
            c = d.const_value()
            if c != 1:
                n = Poly({m: integral(F(v) / c) for m, v in n.t.items()})
            d = ONE
        else:
            q = exact_div(n, d)
            if q is not None:
                n, d = q, ONE
        self.n, self.d = n, d

    @staticmethod
    def const(c):
        return Rat(Poly.const(c))

    @staticmethod
    def var(v):
        return Rat(Poly.var(v))

    def __add__(self, o):
        if self.d is o.d or self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        if self.d is ONE and o.d is ONE:
            return Rat(self.n - o.n)
        return self + (-o)

    def __mul__(self, o):
        if self.d is ONE and o.d is ONE:
            return Rat(self.n * o.n)
        return Rat(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        return Rat(self.n * o.d, self.d * o.n)

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Rat):
            return False
        if self.d is ONE and o.d is ONE:
            return self.n == o.n
        return (self.n * o.d - o.n * self.d).is_zero()

    def __hash__(self):
        # only polynomial values are hashed consistently; true fractions
        # fall into one bucket and are separated by __eq__
        return hash(self.n) if self.d is ONE else 7

    def is_const(self):
        return self.d is ONE and self.n.is_const()

    def const_value(self):
        return F(self.n.const_value()) / self.d.const_value()

    def __repr__(self):
        return repr(self.n) if self.d.is_const() else f'({self.n})/({self.d})'
