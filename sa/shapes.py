"""Named operand shapes over scalar symbols and the finite partitions of their
symbols into order types.

A shape is a function ``prefix -> geometry description`` together with the
strictly increasing chains of symbols of each axis it uses.  The classes of a
pair of shapes are all the ways to interleave (with ties) the chains of the
two operands, independently on the two axes: sweep order, box relations and
every orientation of axis-parallel edges are constant on such a class."""
from __future__ import annotations

import itertools
import random


def orders(chains):
    """all weak orders in which every chain is strictly increasing"""
    chains = [c for c in chains if c]
    out = []

    def rec(pos, rank, cur):
        if all(p == len(c) for p, c in zip(pos, chains)):
            out.append(dict(cur))
            return
        av = [k for k, (p, c) in enumerate(zip(pos, chains)) if p < len(c)]
        for r in range(1, len(av) + 1):
            for sub in itertools.combinations(av, r):
                nxt = list(pos)
                for k in sub:
                    cur[chains[k][nxt[k]]] = rank
                    nxt[k] += 1
                rec(nxt, rank + 1, cur)
    rec([0] * len(chains), 0, {})
    return out


def product(xs, ys):
    return [dict(x, **y) for x in xs for y in ys]


class Shape:
    def __init__(self, name, nx, ny, build, kind):
        self.name, self.nx, self.ny = name, nx, ny
        self.build, self.kind = build, kind

    def chains(self, p):
        return ([f'{p}.x{i}' for i in range(self.nx)],
                [f'{p}.y{i}' for i in range(self.ny)])

    def at(self, p):
        def v(i, j):
            return (f'{p}.x{i}', f'{p}.y{j}')
        return self.build(v)


def ring(v, i, j, k, m):
    return [v(i, k), v(j, k), v(j, m), v(i, m)]


SHAPES = {}


def shape(name, nx, ny, kind):
    def deco(fn):
        SHAPES[name] = Shape(name, nx, ny, fn, kind)
        return fn
    return deco


# shaped ------------------------------------------------------------------
@shape('rect', 2, 2, 'Polygon')
def _(v):
    return ('Polygon', ring(v, 0, 1, 0, 1), [])


@shape('ell', 3, 3, 'Polygon')
def _(v):
    return ('Polygon', [v(0, 0), v(2, 0), v(2, 1), v(1, 1), v(1, 2),
                        v(0, 2)], [])


@shape('cup', 4, 3, 'Polygon')
def _(v):
    return ('Polygon', [v(0, 0), v(3, 0), v(3, 2), v(2, 2), v(2, 1), v(1, 1),
                        v(1, 2), v(0, 2)], [])


@shape('bracket', 3, 4, 'Polygon')
def _(v):        # opens to the right
    return ('Polygon', [v(0, 0), v(2, 0), v(2, 1), v(1, 1), v(1, 2), v(2, 2),
                        v(2, 3), v(0, 3)], [])


@shape('frame', 4, 4, 'Polygon')
def _(v):
    return ('Polygon', ring(v, 0, 3, 0, 3),
            [[v(1, 1), v(1, 2), v(2, 2), v(2, 1)]])


@shape('corner', 3, 3, 'Multipolygon')
def _(v):        # two rectangles touching at a corner
    return ('Multipolygon', [(ring(v, 0, 1, 0, 1), []),
                             (ring(v, 1, 2, 1, 2), [])])


@shape('side', 4, 2, 'Multipolygon')
def _(v):        # two rectangles side by side
    return ('Multipolygon', [(ring(v, 0, 1, 0, 1), []),
                             (ring(v, 2, 3, 0, 1), [])])


@shape('stack', 2, 4, 'Multipolygon')
def _(v):
    return ('Multipolygon', [(ring(v, 0, 1, 2, 3), []),
                             (ring(v, 0, 1, 0, 1), [])])


# linear ------------------------------------------------------------------
@shape('hseg', 2, 1, 'Segment')
def _(v):
    return ('Segment', v(0, 0), v(1, 0))


@shape('vseg', 1, 2, 'Segment')
def _(v):
    return ('Segment', v(0, 1), v(0, 0))


@shape('box', 2, 2, 'Contour')
def _(v):
    return ('Contour', ring(v, 0, 1, 0, 1))


@shape('elbow', 3, 3, 'Contour')
def _(v):
    return ('Contour', [v(0, 0), v(2, 0), v(2, 1), v(1, 1), v(1, 2),
                        v(0, 2)])


@shape('rows', 2, 2, 'Multisegment')
def _(v):
    return ('Multisegment', [(v(0, 0), v(1, 0)), (v(1, 1), v(0, 1))])


@shape('cols', 2, 2, 'Multisegment')
def _(v):
    return ('Multisegment', [(v(0, 0), v(0, 1)), (v(1, 0), v(1, 1))])


@shape('cross', 3, 3, 'Multisegment')
def _(v):        # four spokes meeting in the middle
    return ('Multisegment', [(v(0, 1), v(1, 1)), (v(1, 1), v(2, 1)),
                             (v(1, 0), v(1, 1)), (v(1, 1), v(1, 2))])


@shape('hook', 2, 2, 'Multisegment')
def _(v):
    return ('Multisegment', [(v(0, 0), v(1, 0)), (v(1, 0), v(1, 1))])


@shape('pt', 1, 1, 'Point')
def _(v):
    return ('Point', v(0, 0))


@shape('empty', 0, 0, 'Empty')
def _(v):
    return ('Empty',)


def classes(*names, limit=None, seed=1):
    """class witnesses of a tuple of shapes; with ``limit`` a spread-out
    selection of them (every order type of either axis stays represented as
    evenly as possible)"""
    xs, ys = [], []
    for p, n in zip('abcd', names):
        cx, cy = SHAPES[n].chains(p)
        xs.append(cx)
        ys.append(cy)
    X, Y = orders(xs), orders(ys)
    return select(X, Y, limit, seed)


def select(X, Y, limit, seed=1):
    if limit is None or limit >= len(X) * len(Y):
        return product(X, Y)
    rng = random.Random(seed)
    out, seen = [], set()
    while len(out) < limit:
        px, py = list(range(len(X))), list(range(len(Y)))
        rng.shuffle(px)
        rng.shuffle(py)
        for k in range(max(len(px), len(py))):
            i, j = px[k % len(px)], py[k % len(py)]
            if (i, j) not in seen:
                seen.add((i, j))
                out.append(dict(X[i], **Y[j]))
                if len(out) == limit:
                    break
    return out


# --------------------------------------------------------- sloped families
# Operands over free points; a class is the order type of all the points
# (order of the coordinates on either axis, orientation of every triple),
# named by a witness on an integer grid.
FREE = {
    'tri': (3, lambda v: ('Polygon', v, [])),
    'quad': (4, lambda v: ('Polygon', v, [])),
    'pent': (5, lambda v: ('Polygon', v, [])),
    'holed': (6, lambda v: ('Polygon', v[:3], [v[3:]])),
    'pair': (6, lambda v: ('Multipolygon', [(v[:3], []), (v[3:], [])])),
    'tring': (3, lambda v: ('Contour', v)),
    'qring': (4, lambda v: ('Contour', v)),
    'seg': (2, lambda v: ('Segment', v[0], v[1])),
    'vee': (3, lambda v: ('Multisegment', [(v[1], v[0]), (v[1], v[2])])),
    'duo': (4, lambda v: ('Multisegment', [(v[0], v[1]), (v[3], v[2])])),
}


def free_shape(name, p):
    n, build = FREE[name]
    return build([(f'{p}.x{i}', f'{p}.y{i}') for i in range(n)])


def valid_free(g):
    from . import geom
    if geom.well_formed(g):
        return False
    if g[0] == 'Multisegment':
        for i, s in enumerate(g[1]):
            for t in g[1][:i]:
                r = geom.common(*s, *t)
                if r[0] == 'point' and not (r[1] in s and r[1] in t):
                    return False
    if g[0] == 'Multipolygon':
        p, q = [('Polygon',) + tuple(x) for x in g[1]]
        return geom.relation(p, q) in ('TOUCH', 'DISJOINT')
    if g[0] == 'Polygon' and g[2]:
        r = geom.relation(('Polygon', g[2][0][::-1], []),
                          ('Polygon', g[1], []))
        return r in ('WITHIN', 'ENCLOSED')
    return True


def signature(pts):
    s = []
    n = len(pts)
    for i in range(n):
        for j in range(i):
            dx, dy = pts[i][0] - pts[j][0], pts[i][1] - pts[j][1]
            s.append((dx > 0) - (dx < 0))
            s.append((dy > 0) - (dy < 0))
            for k in range(j):
                a, b, c = pts[k], pts[j], pts[i]
                o = ((b[0] - a[0]) * (c[1] - a[1])
                     - (b[1] - a[1]) * (c[0] - a[0]))
                s.append((o > 0) - (o < 0))
    return tuple(s)


def incidence(a, b):
    """how the edges of two geometries meet, combinatorially"""
    from . import geom

    def edges(g):
        if geom.dim(g) == 2:
            return geom.region_edges(geom.polys_of(g))
        return geom.segs_of(g)
    out = []
    for s in edges(a):
        for t in edges(b):
            r = geom.common(*s, *t)
            if r[0] == 'none':
                out.append(0)
            elif r[0] == 'point':
                p = r[1]
                out.append(1 + (p == s[0]) + 2 * (p == s[1])
                           + 4 * (p == t[0]) + 8 * (p == t[1]))
            else:
                ends = frozenset(r[1:3])
                out.append((s[0] in ends, s[1] in ends, t[0] in ends,
                            t[1] in ends))
    return tuple(out)


_POINTS = {}


def valid_points(name, grid):
    """a pool of valid placements of a free shape on a grid"""
    from .families import ground
    if name == 'holed':
        grid = 5
    if (name, grid) not in _POINTS:
        k = FREE[name][0]
        g = free_shape(name, 'a')
        cells = list(itertools.product(range(grid), repeat=2))
        rng = random.Random(f'{name} {grid}')
        pool = []
        if name == 'holed':
            allp = holed_points(rng, cells)
        else:
            allp = (itertools.permutations(cells, k)
                    if len(cells) ** k < 20000 else (rng.sample(cells, k) for _ in iter(int, 1)))
        for pts in allp:
            rep = {f'a.{c}{i}': v for i, p in enumerate(pts)
                   for c, v in zip('xy', p)}
            if valid_free(ground(g, rep)):
                pool.append(pts)
                if len(pool) == 800 and len(cells) ** k >= 20000:
                    break
                if name == 'holed' and len(pool) == 120:
                    break
        _POINTS[name, grid] = pool
    return _POINTS[name, grid]


def holed_points(rng, cells):
    from . import geom
    while True:
        out = rng.sample(cells, 3)
        if geom.area2(out) <= 0:
            continue
        inside = [c for c in cells if geom.ring_locate(out, c) >= 0]
        if len(inside) > 3:
            yield out + rng.sample(inside, 3)


def free_classes(na, nb, limit, seed=1):
    """``limit`` distinct order types of the points of both operands, of as
    many different incidences of their edges as possible"""
    from .families import ground
    rng = random.Random(f'{na} {nb} {seed}')
    shapes = [free_shape(na, 'a'), free_shape(nb, 'b')]
    groups, seen = {}, set()
    pool = 12 * limit
    tries = 0
    while len(seen) < pool and tries < 20 * pool:
        tries += 1
        grid = (3, 4, 4, 5)[tries % 4]
        rep = {}
        for p, n in zip('ab', (na, nb)):
            pts = rng.choice(valid_points(n, grid))
            for i, (x, y) in enumerate(pts):
                rep[f'{p}.x{i}'], rep[f'{p}.y{i}'] = x, y
        sig = signature([(rep[f'{p}.x{i}'], rep[f'{p}.y{i}'])
                         for p, n in zip('ab', (na, nb))
                         for i in range(FREE[n][0])])
        if sig not in seen:
            seen.add(sig)
            key = incidence(*[ground(g, rep) for g in shapes])
            groups.setdefault(key, []).append(rep)
    keys = list(groups)
    rng.shuffle(keys)
    out = []
    k = 0
    while len(out) < limit and keys:
        keys = [q for q in keys if len(groups[q]) > k]
        for q in keys:
            out.append(groups[q][k])
            if len(out) == limit:
                break
        k += 1
    return out
