"""Finite families of order types ("worlds") and their sign tables."""
from __future__ import annotations

import itertools
from fractions import Fraction

from .absint import Interp, K, Num, Obj, PV
from .poly import Poly, Rat


def weak_orders(n):
    """all weak orders of n symbols as dense rank tuples"""
    out = set()
    for t in itertools.product(range(n), repeat=n):
        s = sorted(set(t))
        if s == list(range(len(s))):
            out.add(t)
    return sorted(out)


def sgn(x):
    return (x > 0) - (x < 0)


class Domain:
    """worlds = list of descriptions; tables: polynomial -> sign per world"""

    def __init__(self, worlds):
        self.worlds = worlds
        self.n = len(worlds)
        self.full = (1 << self.n) - 1
        self.tables = {}

    def mask(self, pred):
        m = 0
        for i, w in enumerate(self.worlds):
            if pred(w):
                m |= 1 << i
        return m

    def first(self, m):
        return self.worlds[(m & -m).bit_length() - 1]

    def add_sign(self, poly, fn):
        """fn(world) -> -1/0/1 or None where not determined"""
        s, c = poly.canonical()
        p = z = n = v = 0
        for i, w in enumerate(self.worlds):
            r = fn(w)
            if r is None:
                continue
            b = 1 << i
            v |= b
            r *= s
            if r > 0:
                p |= b
            elif r < 0:
                n |= b
            else:
                z |= b
        self.tables[c] = (p, z, n, v)

    def interp(self, root, overrides=None, ext=None):
        I = Interp(root, self.n, overrides, ext)
        I.sign_tables = self.tables
        return I


def scalar(name, full):
    return PV.of(Num(Rat.var(name)), full)


class OrderDomain(Domain):
    """k independent axes, each a list of symbol names with admissible rank
    tuples; a world is a tuple of rank tuples"""

    def __init__(self, axes):
        # axes: list of (names, list of rank tuples)
        self.axes = axes
        worlds = list(itertools.product(*[r for _, r in axes]))
        super().__init__(worlds)
        for ai, (names, _) in enumerate(axes):
            for i, j in itertools.combinations(range(len(names)), 2):
                self.add_sign(
                    Poly.var(names[i]) - Poly.var(names[j]),
                    lambda w, ai=ai, i=i, j=j: sgn(w[ai][i] - w[ai][j]))

    def rank(self, w):
        d = {}
        for (names, _), r in zip(self.axes, w):
            for n, x in zip(names, r):
                d[n] = x
        return d

    def describe(self, w):
        out = []
        for (names, _), r in zip(self.axes, w):
            groups = {}
            for n, x in zip(names, r):
                groups.setdefault(x, []).append(n)
            out.append(' < '.join(' = '.join(groups[k])
                                  for k in sorted(groups)))
        return '; '.join(out)


class PointDomain(Domain):
    """worlds = order types of named points, each named by a witness.

    The signs that the order type determines (coordinate differences,
    orientations of triples, and for intersection points ``X`` the coordinate
    differences and orientations where ``X`` exists) are tabulated.  Any other
    polynomial is answered for the witnesses only and counted as imprecise.
    """

    def __init__(self, names, reps):
        super().__init__(reps)
        self.names = list(names)
        self.reps = reps                 # list of dict name -> (x, y)
        self.exist = {n: self.full for n in names}
        self.cache = {}
        self.determined = set()
        self.imprecise = set()
        self.extra = 0
        self._declare(self.names)

    def _declare(self, names):
        for i, j in itertools.combinations(names, 2):
            for c in 'xy':
                p = Poly.var(f'{i}.{c}') - Poly.var(f'{j}.{c}')
                self.determined.add(p.canonical()[1])
        for t in itertools.combinations(names, 3):
            self.determined.add(orient_poly(*t).canonical()[1])

    def add_point(self, name, fn):
        """fn(rep) -> (x, y) or None; a point defined from the others"""
        m = 0
        for i, r in enumerate(self.reps):
            p = fn(r)
            if p is not None:
                r[name] = p
                m |= 1 << i
        self.exist[name] = m
        self.names.append(name)
        self._declare(self.names)
        return m

    def symbol_point(self, values):
        """anonymous point known only at the witnesses"""
        self.extra += 1
        name = f'_{self.extra}'
        m = 0
        for i, p in enumerate(values):
            if p is not None:
                self.reps[i][name] = p
                m |= 1 << i
        self.exist[name] = m
        return name

    def eval_poly(self, poly, rep):
        tot = 0
        for mono, c in poly.t.items():
            v = c
            for var, e in mono:
                n, k = var.rsplit('.', 1)
                v = v * rep[n][0 if k == 'x' else 1] ** e
            tot += v
        return tot

    def eval_rat(self, r, rep):
        from fractions import Fraction
        n = self.eval_poly(r.n, rep)
        d = self.eval_poly(r.d, rep)
        return Fraction(n) / Fraction(d)

    def sign(self, c, m):
        t = self.cache.get(c)
        if t is None:
            p = z = n = 0
            names = {v.rsplit('.', 1)[0] for v in c.variables()}
            if not names <= set(self.exist):
                return None
            valid = self.full
            for nm in names:
                valid &= self.exist[nm]
            for i, rep in enumerate(self.reps):
                b = 1 << i
                if not valid & b:
                    continue
                v = self.eval_poly(c, rep)
                if v > 0:
                    p |= b
                elif v < 0:
                    n |= b
                else:
                    z |= b
            t = self.cache[c] = (p, z, n, valid)
        if c not in self.determined and m:
            self.imprecise.add(repr(c))
        return t

    def interp(self, root, overrides=None, ext=None):
        I = Interp(root, self.n, overrides, ext)
        I.sign_hook = self.sign
        return I

    def point(self, I, name, cls=None, m=None):
        cls = cls or I.get('rene._exact:Point')
        m = self.full if m is None else m
        m &= self.exist[name]
        r = I.call_atom(cls, [scalar(name + '.x', m), scalar(name + '.y', m)],
                        {}, m)
        if r.cov() != m:
            from .absint import Undecided
            raise Undecided('Point construction raises')
        return r

    def describe(self, rep):
        return ', '.join(f'{n}=({rep[n][0]}, {rep[n][1]})'
                         for n in self.names if n in rep)


def orient_poly(a, b, c):
    ax, ay = Poly.var(a + '.x'), Poly.var(a + '.y')
    bx, by = Poly.var(b + '.x'), Poly.var(b + '.y')
    cx, cy = Poly.var(c + '.x'), Poly.var(c + '.y')
    return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)


def orient(a, b, c):
    return sgn((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))


def meet(a, b, c, d):
    """the single common point of two closed segments, or None"""
    from fractions import Fraction
    den = (b[0]-a[0])*(d[1]-c[1]) - (b[1]-a[1])*(d[0]-c[0])
    if den == 0:
        return None
    if orient(a, b, c) * orient(a, b, d) > 0 or \
            orient(c, d, a) * orient(c, d, b) > 0:
        return None
    num = (c[0]-a[0])*(d[1]-c[1]) - (c[1]-a[1])*(d[0]-c[0])
    t = Fraction(num, den)
    return (a[0] + (b[0]-a[0])*t, a[1] + (b[1]-a[1])*t)


def line_meet(a, b, c, d):
    from fractions import Fraction
    den = (b[0]-a[0])*(d[1]-c[1]) - (b[1]-a[1])*(d[0]-c[0])
    if den == 0:
        return None
    num = (c[0]-a[0])*(d[1]-c[1]) - (c[1]-a[1])*(d[0]-c[0])
    t = Fraction(num) / den
    return (a[0] + (b[0]-a[0])*t, a[1] + (b[1]-a[1])*t)


def on_segment(a, b, p):
    return orient(a, b, p) == 0 and min(a, b) <= p <= max(a, b)


_SEG = None


def segments4():
    import os
    path = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'data', 'segments4.txt')
    reps = []
    for line in open(path):
        v = [int(c) for c in line.strip()]
        reps.append({'a': (v[0], v[1]), 'b': (v[2], v[3]), 'c': (v[4], v[5]),
                     'd': (v[6], v[7])})
    D = PointDomain('abcd', reps)
    D.crossing = D.add_point('X', lambda r: meet(r['a'], r['b'], r['c'],
                                                 r['d']))
    return D


def small_points(names, grid, distinct=()):
    """order types of up to three points, from an integer grid"""
    pts = [(x, y) for x in range(grid) for y in range(grid)]
    seen = {}
    n = len(names)
    for t in itertools.product(pts, repeat=n):
        s = []
        for i, j in itertools.combinations(range(n), 2):
            s += [sgn(t[i][0] - t[j][0]), sgn(t[i][1] - t[j][1])]
        for i, j, k in itertools.combinations(range(n), 3):
            s.append(orient(t[i], t[j], t[k]))
        s = tuple(s)
        if s not in seen:
            seen[s] = t
    reps = []
    for t in seen.values():
        r = dict(zip(names, t))
        if all(r[i] != r[j] for i, j in distinct):
            reps.append(r)
    return PointDomain(names, reps)


class SymbolDomain(Domain):
    """worlds = order types of a family of scalar symbols, each named by a
    witness valuation; ``facts`` (callable Poly -> bool) tells whether the
    sign of a polynomial is the same for the whole class"""

    def __init__(self, reps):
        self.defs = {}
        reps = [Valuation(r, self) for r in reps]
        super().__init__(reps)
        self.reps = reps
        self.cache = {}
        self.asked = set()
        self.grounded = False     # some coordinate is a constant
        self.where = lambda: '?'
        self.suspects = {}
        self.odd = []             # (kind, construct, text, mask)
        self.asked_relative = 0
        self.moves = {}

    # -------------------------------------------- behaviour under similarity
    def move(self, var):
        """(degree, x, y): var becomes k**degree * var when coordinates are
        multiplied by k, var + x*s + y*t when they are shifted by (s, t);
        None when neither"""
        r = self.moves.get(var, 0)
        if r == 0:
            if var in self.defs:
                r = self.moves_of(self.defs[var])
            else:
                ax = var.rsplit('.', 1)[-1][:1]
                r = (1, 1, 0) if ax == 'x' else (1, 0, 1) if ax == 'y' \
                    else None
            self.moves[var] = r
        return r

    def degree(self, poly):
        """degree of homogeneity or None"""
        out = None
        for mono in poly.t:
            d = 0
            for var, e in mono:
                mv = self.move(var)
                if mv is None:
                    return None
                d += mv[0] * e
            if out is None:
                out = d
            elif out != d:
                return None
        return 0 if out is None else out

    def slope(self, poly, axis):
        """derivative along a shift of all coordinates of an axis"""
        out = {}
        for mono, c in poly.t.items():
            for j, (var, e) in enumerate(mono):
                k = self.move(var)[axis]
                if not k:
                    continue
                rest = list(mono)
                if e == 1:
                    del rest[j]
                else:
                    rest[j] = (var, e - 1)
                rest = tuple(rest)
                v = out.get(rest, 0) + c * e * k
                if v:
                    out[rest] = v
                else:
                    del out[rest]
        return Poly(out)

    def moves_of(self, r):
        n, d = self.degree(r.n), self.degree(r.d)
        if n is None or d is None:
            return None
        out = [n - d]
        for axis in (1, 2):
            a, b = self.slope(r.n, axis), self.slope(r.d, axis)
            k, den = a, r.d
            if not b.is_zero():
                k, den = a * r.d - r.n * b, r.d * r.d
            if k.is_zero():
                out.append(0)
                continue
            q = Rat(k, den)
            if not q.d.is_const() or not q.n.is_const():
                return None
            out.append(q.n.const_value())
        return tuple(out)

    def judge(self, c):
        """-> suspicion that the sign of c depends on more than relative
        positions"""
        if self.degree(c) is None:
            return 'scale', 'the scale'
        if any(not self.slope(c, axis).is_zero() for axis in (1, 2)):
            return 'position', 'the distance to the origin'
        self.asked_relative += 1
        return None

    def convict(self, c, m):
        """is the suspicion justified at the witnesses?"""
        kind, what = self.suspects[c]
        bad = 0
        while m:
            b = m & -m
            m ^= b
            rep = self.reps[b.bit_length() - 1]
            if kind == 'scale':
                ok = self.steady_scale(c, rep)
            else:
                ok = self.steady_shift(c, rep)
            if ok:
                self.asked_relative += 1
            else:
                bad |= b
        if bad:
            self.odd.append((kind, self.where(), f'the sign of {c} is '
                             f'asked, which depends on {what}', bad))

    def steady_scale(self, c, rep):
        parts = {}
        for mono, k in c.t.items():
            d = 0
            for var, e in mono:
                mv = self.move(var)
                if mv is None:
                    return self.same_sign(c, rep)
                d += mv[0] * e
                k = k * rep[var] ** e
            parts[d] = parts.get(d, 0) + k
        return len({v > 0 for v in parts.values() if v}) < 2

    def same_sign(self, c, rep):
        want = sgn(self.eval_poly(c, rep))
        for k in (1 / 2 ** 60, 2 ** 60, 1 / 2 ** 5, 2 ** 5):
            other = Valuation({v: x * Fraction(k) for v, x in rep.items()
                               if v not in self.defs}, self)
            if sgn(self.eval_poly(c, other)) != want:
                return False
        return True

    def steady_shift(self, c, rep):
        want = sgn(self.eval_poly(c, rep))
        far = (0, 1, -1, 3, -7, 2 ** 20 + 1, -2 ** 21 - 1)
        for s in far:
            for t in far:
                other = Valuation(
                    {v: x + (s if self.move(v)[1] else t)
                     for v, x in rep.items() if v not in self.defs
                     and self.move(v)}, self)
                if sgn(self.eval_poly(c, other)) != want:
                    return False
        return True

    def judge_result(self, r, m):
        if self.grounded or r.is_const():
            return
        mv = self.moves_of(r)
        if mv not in ((1, 1, 0), (1, 0, 1)):
            self.odd.append(('result', 'a result', f'the coordinate {r} is '
                             'not moved and scaled with the operands', m))
        else:
            self.asked_relative += 1

    def intern(self, r, m):
        """name an irreducible quotient, so that formulas stay small"""
        for nm, q in self.defs.items():
            if q.n == r.n and q.d == r.d:
                break
        else:
            nm = f'_q{len(self.defs)}'
            self.defs[nm] = r
        return Rat.var(nm)

    def eval_poly(self, poly, rep):
        tot = 0
        for mono, c in poly.t.items():
            v = c
            for var, e in mono:
                v = v * rep[var] ** e
            tot += v
        return tot

    def eval_rat(self, r, rep):
        from fractions import Fraction
        d = self.eval_poly(r.d, rep)
        if d == 0:
            return self.limit(r, rep)
        return Fraction(self.eval_poly(r.n, rep)) / Fraction(d)

    def limit(self, r, rep):
        """value at a removable singularity: formulas equal as rational
        functions are kept in one form, whose denominator may vanish where
        that of the other does not"""
        from fractions import Fraction
        names = sorted(r.n.variables() | r.d.variables())
        base = [Fraction(rep[v]) for v in names]
        dirs = [Fraction((7 * k * k + 3 * k + 1) % 101 + 1)
                for k in range(len(names))]

        def line(poly):
            # coefficients along base + t * dirs
            out = [Fraction(0)]
            at = {v: (b, d) for v, b, d in zip(names, base, dirs)}
            for mono, c in poly.t.items():
                cs = [Fraction(c)]
                for var, e in mono:
                    b, d = at[var]
                    for _ in range(e):
                        nxt = [Fraction(0)] * (len(cs) + 1)
                        for k, x in enumerate(cs):
                            nxt[k] += x * b
                            nxt[k + 1] += x * d
                        cs = nxt
                out += [Fraction(0)] * (len(cs) - len(out))
                for k, x in enumerate(cs):
                    out[k] += x
            return out
        n, d = line(r.n), line(r.d)
        k = next((j for j, x in enumerate(d) if x), None)
        if k is None or any(n[:k]):
            raise ZeroDivisionError('singular value')
        return n[k] / d[k] if k < len(n) else Fraction(0)

    def sign(self, c, m):
        t = self.cache.get(c)
        if t is None:
            t = self.cache[c] = [0, 0, 0, 0]
            self.asked.add(c)
            if not self.grounded:
                why = self.judge(c)
                if why:
                    self.suspects[c] = why
        need = m & ~t[3]
        if need:
            if c in self.suspects and not self.grounded:
                self.convict(c, need)
            terms = list(c.t.items())
            reps = self.reps
            t[3] |= need
            while need:
                b = need & -need
                need ^= b
                rep = reps[b.bit_length() - 1]
                tot = 0
                for mono, k in terms:
                    for var, e in mono:
                        k = k * rep[var] if e == 1 else k * rep[var] ** e
                    tot += k
                if tot > 0:
                    t[0] |= b
                elif tot < 0:
                    t[2] |= b
                else:
                    t[1] |= b
        return t

    def interp(self, root, overrides=None, ext=None):
        I = Interp(root, self.n, overrides, ext)
        I.sign_hook = self.sign
        I.rat_hook = self.intern
        self.where = lambda: I.frames[-1].site(I.cur_node) if I.frames \
            else '?'
        return I

    def describe(self, rep):
        return ', '.join(f'{k}={v}' for k, v in rep.items()
                         if not k.startswith('_'))


class Valuation(dict):
    """witness of a class; interned quotients are evaluated when needed"""

    def __init__(self, d, domain):
        super().__init__(d)
        self.domain = domain

    def __missing__(self, k):
        v = self[k] = self.domain.eval_rat(self.domain.defs[k], self)
        return v
