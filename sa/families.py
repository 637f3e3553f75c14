"""Families of geometries: abstract interpretation of the public API over a
finite partition of the inputs, decided class by class.

A family is a list of classes; a class is named by a witness valuation of
scalar symbols.  Operands are built through the public constructors of the
analysed sources from those symbols, an operation is interpreted once for all
classes of a shard, its result is read back through the public attributes and
compared with the set-theoretic definition (``geom``)."""
from __future__ import annotations

import ast
import multiprocessing
import os
import sys
import traceback

from . import geom
from .absint import (Endless, EnumM, ExcV, Interp, K, Num, Obj, PV, Seq, Undecided)
from .poly import Poly, Rat
from .report import REPO, Broken
from .worlds import SymbolDomain

OPERATORS = {'&': ast.BitAnd, '|': ast.BitOr, '-': ast.Sub, '^': ast.BitXor}
FAST = bool(os.environ.get('SA_FAST'))    # stop at the first violation
WORKERS = int(os.environ.get('SA_WORKERS', '8'))


def bits(m):
    while m:
        b = m & -m
        yield b.bit_length() - 1
        m ^= b


# ----------------------------------------------------------------- building
class Builder:
    def __init__(self, D, I, mask=None):
        self.D, self.I = D, I
        self.full = D.full if mask is None else mask
        self.cls = {}

    def c(self, name):
        if name not in self.cls:
            self.cls[name] = self.I.get('rene._exact:' + name)
        return self.cls[name]

    def seq(self, items):
        return PV.of(Seq('list', {len(items): (self.full, list(items))}),
                     self.full)

    def call(self, name, *args):
        r = self.I.call_atom(self.c(name), list(args), {}, self.full)
        if r.cov() != self.full:
            raise Undecided(f'{name} construction raises: '
                            f'{self.I.handlers[0][:1]}')
        return r

    def scalar(self, s):
        if isinstance(s, str):
            return PV.of(Num(Rat.var(s)), self.full)
        self.D.grounded = True
        return PV.of(K(s), self.full)

    def point(self, x, y):
        return self.call('Point', self.scalar(x), self.scalar(y))

    def make(self, g):
        """geometry description (see ``geom``) over symbol pairs -> PV"""
        k = g[0]
        if k == 'Empty':
            return self.call('Empty')
        if k == 'Point':
            return self.point(*g[1])
        if k == 'Segment':
            return self.call('Segment', self.point(*g[1]), self.point(*g[2]))
        if k == 'Contour':
            return self.call('Contour', self.seq([self.point(*p)
                                                  for p in g[1]]))
        if k == 'Multisegment':
            return self.call('Multisegment', self.seq(
                [self.make(('Segment', p, q)) for p, q in g[1]]))
        if k == 'Polygon':
            return self.call('Polygon', self.make(('Contour', g[1])),
                             self.seq([self.make(('Contour', h))
                                       for h in g[2]]))
        if k == 'Multipolygon':
            return self.call('Multipolygon', self.seq(
                [self.make(('Polygon', b, h)) for b, h in g[1]]))
        raise ValueError(k)


def ground(g, rep):
    """geometry description at a witness"""
    def pt(p):
        return tuple(rep[c] if isinstance(c, str) else c for c in p)
    k = g[0]
    if k == 'Empty':
        return g
    if k == 'Point':
        return ('Point', pt(g[1]))
    if k == 'Segment':
        return (k, pt(g[1]), pt(g[2]))
    if k == 'Contour':
        return (k, [pt(p) for p in g[1]])
    if k == 'Multisegment':
        return (k, [(pt(p), pt(q)) for p, q in g[1]])
    if k == 'Polygon':
        return (k, [pt(p) for p in g[1]], [[pt(p) for p in h]
                                           for h in g[2]])
    return (k, [([pt(p) for p in b], [[pt(p) for p in h] for h in hs])
                for b, hs in g[1]])


# ----------------------------------------------------------------- decoding
class Decoder:
    """read abstract geometries back through their public attributes"""

    def __init__(self, D, I):
        self.D, self.I = D, I
        self.memo = {}

    def attr(self, a, name, m):
        v = self.I.getattr_pv(PV.of(a, m), name, m, None)
        if m & ~v.cov():
            raise Undecided(f'reading .{name} of a result raises')
        return v

    def number(self, pv, m):
        out = {}
        for a, w in pv.items():
            w &= m
            r = self.I.num(a)
            if w and r is None:
                raise Undecided(f'result coordinate {a!r}')
            if w:
                self.D.judge_result(r, w)
            for i in bits(w):
                out[i] = self.D.eval_rat(r, self.D.reps[i])
        return out

    def items(self, pv, m):
        """-> {world: [decoded items]}"""
        seq = self.I.to_list(pv.at(m), m, None)
        out = {}
        for ln, (pm, its) in seq.parts.items():
            w = pm & m
            cols = [self.value(it.at(w), w) for it in its]
            for i in bits(w):
                out[i] = [c[i] for c in cols]
        return out

    def value(self, pv, m):
        """-> {world: plain value}"""
        out = {}
        for a, w in pv.items():
            w &= m
            if w:
                out.update(self.atom(a, w))
        return out

    def atom(self, a, m):
        if isinstance(a, K):
            return {i: a.v for i in bits(m)}
        if isinstance(a, EnumM):
            return {i: a.name for i in bits(m)}
        if isinstance(a, Num):
            return self.number(PV.of(a, m), m)
        if isinstance(a, Seq):
            return self.items(PV.of(a, m), m)
        if not isinstance(a, Obj):
            raise Undecided(f'unexpected result {a!r}')
        if a.cls.lookup('__getitem__')[0] is not None:
            return self.items(PV.of(a, m), m)
        hit = self.memo.setdefault(a.id, {'obj': a})
        left = 0
        out = {}
        for i in bits(m):
            if i in hit:
                out[i] = hit[i]
            else:
                left |= 1 << i
        if left:
            new = self.obj(a, left)
            hit.update(new)
            out.update(new)
        return out

    def obj(self, a, m):
        k = a.cls.name
        if k == 'Point':
            x = self.number(self.attr(a, 'x', m), m)
            y = self.number(self.attr(a, 'y', m), m)
            return {i: (x[i], y[i]) for i in bits(m)}
        if k == 'Empty':
            return {i: ('Empty',) for i in bits(m)}
        if k == 'Segment':
            s = self.value(self.attr(a, 'start', m), m)
            e = self.value(self.attr(a, 'end', m), m)
            return {i: ('Segment', s[i], e[i]) for i in bits(m)}
        if k == 'Contour':
            v = self.items(self.attr(a, 'vertices', m), m)
            return {i: ('Contour', v[i]) for i in bits(m)}
        if k == 'Multisegment':
            v = self.items(self.attr(a, 'segments', m), m)
            return {i: ('Multisegment', [(s[1], s[2]) for s in v[i]])
                    for i in bits(m)}
        if k == 'Polygon':
            b = self.value(self.attr(a, 'border', m), m)
            h = self.items(self.attr(a, 'holes', m), m)
            return {i: ('Polygon', b[i][1], [c[1] for c in h[i]])
                    for i in bits(m)}
        if k == 'Multipolygon':
            v = self.items(self.attr(a, 'polygons', m), m)
            return {i: ('Multipolygon', [(p[1], p[2]) for p in v[i]])
                    for i in bits(m)}
        if k == 'Box':
            v = [self.number(self.attr(a, n, m), m)
                 for n in ('min_x', 'max_x', 'min_y', 'max_y')]
            return {i: ('Box',) + tuple(c[i] for c in v) for i in bits(m)}
        raise Undecided(f'unexpected result {a!r}')


# ------------------------------------------------------------------- worker
class Result:
    def __init__(self):
        self.counts = {}
        self.bad = []
        self.functions = set()
        self.asked = set()
        self.error = None

    def ok(self, rule, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n

    def violation(self, rule, construct, msg):
        self.bad.append((rule, construct, msg))

    def check(self, rule, cond, construct, msg):
        if cond:
            self.ok(rule)
        else:
            self.violation(rule, construct,
                           msg() if callable(msg) else msg)


class Shard:
    """interpreter, builder and decoder of one shard"""

    def __init__(self, reps, overrides=None):
        self.D = SymbolDomain(reps)
        self.I = self.D.interp(REPO, overrides)
        self.B = Builder(self.D, self.I)
        self.X = Decoder(self.D, self.I)
        self.R = Result()

    def entry(self, a, name):
        """file-level name of the method that serves an operation"""
        for x in a.d:
            if isinstance(x, Obj):
                fn, _ = x.cls.lookup(name)
                if fn is not None:
                    for f in fn.d:
                        return getattr(f, 'key', None) or f'{x.cls.name}.' \
                            f'{name}'
        return name

    def escaped(self, rule, construct, show):
        left = self.I.handlers[0][:]
        self.I.handlers[0].clear()
        for exc, m, loc in left:
            for i in bits(m):
                self.R.violation(rule, construct,
                                 f'{exc!r} raised at {loc} for '
                                 f'{show(i)}')
                break
        return left

    def binary(self, op, a, b):
        r = self.I.binop_pv(OPERATORS[op](), a, b, self.D.full, None)
        return r

    def call(self, a, name, *args, m=None):
        m = self.D.full if m is None else m
        out = PV()
        for x, w in a.items():
            w &= m
            if w:
                out.merge(self.I.call_method(x, name,
                                             [p.at(w) for p in args], w))
        return out


def _worker(job):
    fn, reps, args = job
    sys.setrecursionlimit(20000)
    R = sh = None
    try:
        sh = Shard(reps)
        R = sh.R
        fn(sh, *args)
        R.functions = {k for k in sh.I.functions if k.startswith('rene')}
        R.asked = set(sh.D.asked)
    except Endless as e:
        R.violation('no-exception', str(e).split(': ')[0],
                    f'does not terminate: {e}, for one of {reps[:3]}')
    except Exception as e:
        R = R or Result()
        R.error = f'{type(e).__name__}: {e}'
        if os.environ.get('SA_DEBUG'):
            R.error += '\n' + traceback.format_exc()[-3000:]
    if sh is not None:
        similarity(sh)
    return R


SIMILAR = {
    'lossless': 'no coordinate is rounded or converted to floating point',
    'relative': 'every sign that a decision depends on is that of a formula '
    'of relative positions, homogeneous in the coordinates, and the '
    'coordinates of the outcome move and scale with the operands: the '
    'outcome is the same at any scale and distance from the origin'}


def similarity(sh):
    R, D = sh.R, sh.D

    def at(m):
        i = next(bits(m & D.full), None)
        return '' if i is None else f', for {D.describe(D.reps[i])}'
    R.ok('lossless')
    for what, site, m in sh.I.lossy:
        R.violation('lossless', site, f'{what} of a coordinate{at(m)}')
    if D.grounded:
        return
    R.ok('relative', D.asked_relative)
    for kind, site, text, m in D.odd:
        R.violation('relative', site, text[:400] + at(m))


def run_family(rep, fn, reps, args=(), chunk=None, prefix=''):
    """interpret ``fn(shard, *args)`` over all classes and merge"""
    if chunk is None:
        chunk = max(1, min(60, -(-len(reps) // WORKERS)))
    jobs = [(fn, reps[i:i + chunk], args)
            for i in range(0, len(reps), chunk)]
    run_jobs(rep, jobs)


COLLECT = None      # jobs are collected here instead of being run


def run_jobs(rep, jobs):
    if COLLECT is not None:
        COLLECT.extend(jobs)
        return
    errors = []
    for k, t in SIMILAR.items():
        rep.rule(k, t)
    asked = set()
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(WORKERS, len(jobs)), maxtasksperchild=None) as pool:
        for R in pool.imap_unordered(_worker, jobs):
            for rule, n in R.counts.items():
                rep.ok(rule, n)
            for v in R.bad:
                rep.violation(*v)
            rep.functions |= R.functions
            asked |= R.asked
            if R.error:
                errors.append(R.error)
            if FAST and (R.bad or R.error):
                break
    und = {c for c in asked if not determined(c)}
    rep.asked = getattr(rep, 'asked', set()) | asked
    rep.undetermined = getattr(rep, 'undetermined', set()) | und
    rep.imprecise = len(rep.undetermined)
    if errors:
        rep.violations.sort(key=lambda v: (v['rule'], v['construct']))
        raise Undecided(errors[0])


# -------------------------------------------------------- sign determination
def axis_of(v):
    """'a.x0' -> 'x' (symbols on different axes are never compared)"""
    return v.rsplit('.', 1)[-1][0]


def determined(c):
    """is the sign of c a function of the order of the symbols of each axis?
    (a product of differences of symbols of one axis)"""
    from .poly import exact_div
    names = sorted(c.variables())
    if any(n.startswith('_') for n in names):
        return False
    if is_orientation(c, names):
        return True
    p = c
    progress = True
    while progress and not p.is_const():
        progress = False
        names = sorted(p.variables())
        for i, u in enumerate(names):
            for v in names[:i]:
                if axis_of(u) != axis_of(v):
                    continue
                q = exact_div(p, Poly.var(u) - Poly.var(v))
                if q is not None:
                    p = q
                    progress = True
                    break
            if progress:
                break
    return p.is_const()


def is_orientation(c, names):
    """is c the orientation of three points of the family?"""
    pts = {}
    for n in names:
        head, ax = n.rsplit('.', 1)
        pts.setdefault((head, ax[1:]), set()).add(ax[0])
    if len(pts) != 3 or not all('x' in v or 'y' in v for v in pts.values()):
        return False
    a, b, d = [(Poly.var(f'{h}.x{k}'), Poly.var(f'{h}.y{k}'))
               for h, k in sorted(pts)]
    o = ((b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0]))
    return o.canonical()[1] == c.canonical()[1]
