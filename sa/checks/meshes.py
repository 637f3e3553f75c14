"""Trapezoidations and Delaunay triangulations."""
from __future__ import annotations

import itertools
import random
from fractions import Fraction

from .. import geom
from ..absint import K, PV, PyFn
from ..families import bits, ground
from ..shapes import (FREE, SHAPES, classes, free_shape, signature,
                      valid_points)
from .basics import LOC, NO_EXC, P, deep, finish, free_points, jobs_of
from .setops import show


# ------------------------------------------------------------ trapezoidation
def sites(g, rng, count):
    """query points in general and in special position to a geometry"""
    segs = (geom.region_edges(geom.polys_of(g)) if geom.dim(g) == 2
            else geom.segs_of(g))
    ends = sorted({p for s in segs for p in s})
    half = Fraction(1, 2)
    pool = [rng.choice(ends)]
    s = rng.choice(segs)
    pool.append(((s[0][0] + s[1][0]) * half, (s[0][1] + s[1][1]) * half))
    lo = [min(p[k] for p in ends) for k in (0, 1)]
    hi = [max(p[k] for p in ends) for k in (0, 1)]
    pool.append((hi[0] + 7, lo[1]))
    pool.append((lo[0] - 1, hi[1] - half))
    want = [1, -1, 0] if geom.dim(g) == 2 else [0, -1]
    for k in range(6 * count):      # as many inside as outside
        if len(pool) >= count:
            break
        a, b, c = (rng.choice(ends) for _ in range(3))
        p = rng.choice((
            (Fraction(a[0] + b[0] + c[0], 3), Fraction(a[1] + b[1] + c[1],
                                                       3)),
            (a[0], (b[1] + c[1]) * half),          # level with a vertex
            ((a[0] + b[0]) * half, c[1]),
            (rng.randint(2 * lo[0] - 1, 2 * hi[0] + 1) * half,
             rng.randint(2 * lo[1] - 1, 2 * hi[1] + 1) * half)))
        if p not in pool and (k > 4 * count or geom.locate(g, p)
                              == want[len(pool) % len(want)]):
            pool.append(p)
    while len(pool) < count:
        pool.append(pool[-1])
    return pool[:count]


QUERIES = 9


def with_sites(g, reps, seed):
    rng = random.Random(f'{g[0]} {seed}')
    out = []
    for r in reps:
        r = dict(r)
        for k, (x, y) in enumerate(sites(ground(g, r), rng, QUERIES)):
            r[f'q.x{k}'], r[f'q.y{k}'] = x, y
        out.append(r)
    return out


def seeded(sh, seed):
    return PV.of(PyFn('seeder', lambda I, ar, kw, m, nd: PV.of(
        K(seed), m)), sh.D.full)


def trapezoidation_job(sh, g, seed, what):
    name = f'Trapezoidation.from_{g[0].lower()}'
    a = sh.B.make(g)
    t = from_(sh, 'Trapezoidation', f'from_{g[0].lower()}', a,
              seeder=seeded(sh, seed))
    sh.escaped('no-exception', name,
               lambda i: f'{show(sh, i, g)}, seed {seed}')
    m = t.cov()
    if not m:
        return
    for k in range(QUERIES):
        pt = P(k, 'q')
        p = sh.B.point(*pt)
        r = sh.call(t, 'locate', p, m=m)
        sh.escaped('no-exception', 'Trapezoidation.locate',
                   lambda i: f"{show(sh, i, g, ('Point', pt))}, seed {seed}")
        for i, v in sh.X.value(r, r.cov()).items():
            rep = sh.D.reps[i]
            A, q = ground(g, rep), ground(('Point', pt), rep)[1]
            w = LOC[geom.locate(A, q)]
            sh.R.check('location', v == w, name,
                       lambda: f'{what}: the trapezoidation of {A}, seed '
                       f'{seed}, locates {q} in {v} instead of {w}')
        if k % 4:
            continue
        t1 = sh.call(t, '__contains__', p, m=m)
        sh.escaped('no-exception', 'Trapezoidation.__contains__',
                   lambda i: f"{show(sh, i, g, ('Point', pt))}, seed {seed}")
        tm, fm = sh.I.truth(t1, t1.cov(), None)
        for i in bits(tm | fm):
            rep = sh.D.reps[i]
            A, q = ground(g, rep), ground(('Point', pt), rep)[1]
            v = bool(tm >> i & 1)
            sh.R.check('membership', v == (geom.locate(A, q) >= 0), name,
                       lambda: f'{what}: {q} in the trapezoidation of {A}, '
                       f'seed {seed}, is {v}')


# a hole with a vertex inside an edge of the border: (polygon, seed, point)
LEANING = [
    (('Polygon', [(0, 3), (5, 1), (3, 6)], [[(3, 3), (4, 2), (1, 4)]]),
     1, (2, 4)),
    (('Polygon', [(0, 3), (5, 1), (3, 6)], [[(3, 3), (4, 2), (1, 4)]]),
     6, (2, 5)),
    (('Polygon', [(6, 6), (1, 6), (3, 1)], [[(4, 3), (2, 6), (4, 4)]]),
     4, (3, 5)),
]


def named(g):
    return f'border {g[1]}, hole {g[2][0]}'


def leaning_trapezoidation(sh, what):
    """holes leaning against the border, one finding per input"""
    for g, seed, q in LEANING[:2]:
        name = (f'Trapezoidation.from_polygon, {named(g)}, seed {seed}, '
                f'point {q}')
        t = from_(sh, 'Trapezoidation', 'from_polygon', sh.B.make(g),
                  seeder=PV.of(PyFn('seeder', lambda I, ar, kw, m, nd,
                                    seed=seed: PV.of(K(seed), m)),
                               sh.D.full))
        sh.escaped('location', name, lambda i: name)
        if t.cov():
            r = sh.call(t, 'locate', sh.B.point(*q))
            sh.escaped('location', name, lambda i: name)
            for v in sh.X.value(r, r.cov()).values():
                w = LOC[geom.locate(g, q)]
                sh.R.check('location', v == w, name,
                           lambda: f'{v} instead of {w}')


def leaning_triangulation(sh, what):
    name = 'ConstrainedDelaunayTriangulation'
    for g in [g for g, seed, q in LEANING][1:]:
        at = f'{name}.from_polygon, {named(g)}'
        t = from_(sh, name, 'from_polygon', sh.B.make(g))
        sh.escaped('constrained-delaunay', at, lambda i: at)
        if t.cov():
            ts, border = triangles(sh, t, name, lambda i: at)
            for i in ts:
                d = constrained_defect(g, [c[1] for c in ts[i]],
                                       border[i][1])
                sh.R.check('constrained-delaunay', d is None, at, d)


def ring_pool(k, limit, seed, grid=5):
    """witnesses of simple k-gons by order type"""
    return free_points(k, limit, seed,
                       lambda q: geom.ring_defect(list(q)) is None, grid)


def trapezoidations(rep):
    jobs = []
    n = 0
    rng = random.Random(rep.seed)

    def add(what, g, reps, seeds):
        nonlocal n
        reps = with_sites(g, reps, what)
        seeds = list(seeds)
        parts = max(len(seeds), -(-len(reps) // 40))
        for k in range(parts):
            part = reps[k::parts]
            if part:
                n += len(part)
                jobs.append((trapezoidation_job, part, (
                    g, seeds[k % len(seeds)], what)))

    def some(edges, k):
        top = 1
        for i in range(2, edges + 1):
            top *= i
        return [rng.randrange(top) for _ in range(k)]
    tri = free_points(3, None, 1, lambda q: geom.ring_defect(
        list(q)) is None, 4)
    for s in range(6):
        add('triangle', ('Polygon', [P(i) for i in range(3)], []), tri, [s])
    for k, name in ((4, 'quadrangle'), (5, 'pentagon'), (6, 'hexagon')):
        add(name, ('Polygon', [P(i) for i in range(k)], []),
            ring_pool(k, deep(rep, 400), rep.seed),
            range(24) if k == 4 else some(k, 24))
    for name in ('rect', 'ell', 'cup', 'bracket', 'frame'):
        g = SHAPES[name].at('a')
        edges = len(g[1]) + sum(len(h) for h in g[2])
        reps = classes(name)
        for k in range(len(g[1])):
            for s in some(edges, deep(rep, 4)):
                turned = (g[1][k:] + g[1][:k])[::(-1) ** (s % 2)]
                add(name, ('Polygon', turned, [h[::(-1) ** (s // 2 % 2)]
                                               for h in g[2]]), reps, [s])
    add('holed', free_shape('holed', 'a'), [
        {f'a.{c}{i}': v for i, p in enumerate(q) for c, v in zip('xy', p)}
        for q in valid_points('holed', 5) if noded(q[:3], q[3:])],
        some(6, 12))
    for name in ('vee', 'duo'):
        k = FREE[name][0]
        pool = valid_points(name, 4)
        pts = random.Random(f'{name} {rep.seed}').sample(
            pool, min(len(pool), deep(rep, 300)))
        add(name, free_shape(name, 'a'), [
            {f'a.{c}{i}': v for i, p in enumerate(q)
             for c, v in zip('xy', p)} for q in pts], range(2))
    for name in ('rows', 'cols', 'cross', 'hook'):
        g = SHAPES[name].at('a')
        for s in range(24 if name == 'cross' else 2):
            add(name, g, classes(name), [s])
    rep.note(f'{n} order types')
    jobs.append((leaning_trapezoidation, [{}], ('',)))
    finish(rep, jobs, {
        'location': 'the trapezoidation locates points where they lie in '
        'the geometry it was made from',
        'membership': 'a point is `in` a trapezoidation unless exterior'},
        {'location': n * QUERIES, 'membership': n * 3})


# ------------------------------------------------------------ triangulations
def incircle(a, b, c, d):
    """positive when d is inside the circle through ccw a, b, c"""
    (a1, a2), (b1, b2), (c1, c2) = [(p[0] - d[0], p[1] - d[1])
                                    for p in (a, b, c)]
    return ((a1 * a1 + a2 * a2) * (b1 * c2 - b2 * c1)
            - (b1 * b1 + b2 * b2) * (a1 * c2 - a2 * c1)
            + (c1 * c1 + c2 * c2) * (a1 * b2 - a2 * b1))


def circles(pts):
    """in-circle signs of all quadruples of the points"""
    out = []
    for a, b, c, d in itertools.combinations(pts, 4):
        v = incircle(a, b, c, d)
        out.append((v > 0) - (v < 0))
    return tuple(out)


def hull(ps):
    ps = sorted(set(ps))
    if len(ps) < 3:
        return ps

    def half(it):
        o = []
        for p in it:
            while len(o) > 1 and geom.orient(o[-2], o[-1], p) <= 0:
                o.pop()
            o.append(p)
        return o
    return half(ps)[:-1] + half(ps[::-1])[:-1]


def border_defect(b, want):
    """is the ring b the ring ``want`` as a point set, without redundant
    vertices?"""
    d = geom.ring_defect(b)
    if d is not None:
        return f'border {b}: {d}'
    if area(b) != area(want) or set(strip(b)) != set(strip(want)):
        return f'border {b} instead of {want}'
    return None


def area(r):
    return abs(geom.area2(r))


def strip(r):
    return [p for i, p in enumerate(r)
            if geom.orient(r[i - 1], p, r[(i + 1) % len(r)])]


def delaunay_defect(ps, ts, border):
    h = hull(ps)
    if len(h) < 3:
        return f'triangles {ts} of collinear points' if ts else None
    for t in ts:
        if len(t) != 3 or geom.area2(t) <= 0:
            return f'{t} is not a counterclockwise triangle'
        for p in ps:
            if incircle(*t, p) > 0:
                return f'{p} is inside the circle around {t}'
            if p not in t and geom.ring_locate(t, p) >= 0:
                return f'{p} is in the triangle {t}'
    if sum(map(geom.area2, ts)) != geom.area2(h):
        return f'triangles {ts} do not fill the hull'
    if {p for t in ts for p in t} != set(ps):
        return f'triangles {ts} leave points out'
    return border_defect(border, h)


def triangles(sh, t, name, shown):
    """-> ({world: [vertices]}, {world: border})"""
    out = []
    for attr in ('triangles', 'border'):
        v = sh.I.getattr_pv(t, attr, t.cov(), None)
        sh.escaped('no-exception', f'{name}.{attr}', shown)
        out.append(sh.X.value(v, v.cov()))
    return out


def from_(sh, cls, how, arg, **kw):
    c = sh.I.get(f'rene.exact:{cls}')
    make = sh.I.getattr_pv(PV.of(c, sh.D.full), how, sh.D.full, None)
    t = PV()
    for f, w in make.items():
        t.merge(sh.I.call_atom(f, [arg.at(w)], {k: v.at(w) for k, v
                                                   in kw.items()}, w))
    return t


def delaunay_job(sh, k, what):
    g = [('Point', P(i)) for i in range(k)]
    pts = sh.B.seq([sh.B.point(*P(i)) for i in range(k)])
    name = 'DelaunayTriangulation'

    def shown(i):
        return show(sh, i, *g)
    t = from_(sh, name, 'from_points', pts)
    sh.escaped('no-exception', f'{name}.from_points', shown)
    if not t.cov():
        return
    lines = 0
    for i in bits(t.cov()):
        if len(hull([ground(x, sh.D.reps[i])[1] for x in g])) < 3:
            lines |= 1 << i
    flat, t = t.at(lines), t.at(t.cov() & ~lines)
    if lines:
        v = sh.I.getattr_pv(flat, 'triangles', lines, None)
        sh.escaped('no-exception', f'{name}.triangles', shown)
        for i, ts in sh.X.value(v, v.cov()).items():
            sh.R.check('delaunay', not ts, name, lambda: f'{what}: '
                       f'{shown(i)}: triangles {ts} of collinear points')
    if not t.cov():
        return
    ts, border = triangles(sh, t, name, shown)
    for i in ts.keys() & border.keys():
        ps = [ground(x, sh.D.reps[i])[1] for x in g]
        d = delaunay_defect(ps, [c[1] for c in ts[i]], border[i][1])
        sh.R.check('delaunay', d is None, name,
                   lambda: f'{what}: triangulation of {ps}: {d}')


def point_sets(k, limit, seed, grid):
    """order types (in-circle signs included) of sets of k points"""
    cells = list(itertools.product(range(grid), repeat=2))
    rng = random.Random(f'{k} {seed}')
    out, seen = [], set()

    def add(q):
        s = (signature(q), circles(q))
        if s not in seen:
            seen.add(s)
            q = list(q)
            rng.shuffle(q)
            out.append({f'a.{c}{i}': v for i, p in enumerate(q)
                        for c, v in zip('xy', p)})
    if limit is None:
        for q in itertools.combinations(cells, k):
            add(q)
    else:
        for _ in range(100 * limit):
            add(sorted(rng.sample(cells, k)))
            if len(out) == limit:
                break
    return out


def delaunay(rep):
    jobs = []
    n = 0
    for k, limit, grid in ((1, None, 1), (2, None, 2), (3, None, 4),
                           (4, None, 4), (5, 500, 4), (6, 400, 5),
                           (7, 300, 5), (8, 200, 5), (9, 120, 6),
                           (11, 60, 6)):
        if limit is not None:
            limit = deep(rep, limit)
        reps = point_sets(k, limit, rep.seed, grid)
        n += len(reps)
        jobs += jobs_of(delaunay_job, reps, (k, f'{k} points'), 40)
    twice = [dict(r, **{'a.x5': r['a.x0'], 'a.y5': r['a.y0']})
             for r in point_sets(5, 60, rep.seed, 4)]
    n += len(twice)
    jobs += jobs_of(delaunay_job, twice, (6, 'a repeated point'), 40)
    rep.note(f'{n} order types')
    finish(rep, jobs, {
        'delaunay': 'triangles are counterclockwise, fill the convex hull, '
        'use every point, no point is inside the circle of a triangle; the '
        'border is the hull'}, {'delaunay': n})


def constrained_defect(g, ts, border):
    rings = [g[1]] + list(g[2])
    vs = {p for r in rings for p in r}
    edges = geom.region_edges([(g[1], g[2])])
    for t in ts:
        if len(t) != 3 or geom.area2(t) <= 0:
            return f'{t} is not a counterclockwise triangle'
        if not set(t) <= vs:
            return f'{t} has a vertex not of the polygon'
        c = tuple(Fraction(sum(p[k] for p in t), 3) for k in (0, 1))
        if geom.locate(g, c) != 1:
            return f'{t} is not in the polygon'
        for p in vs:
            if p not in t and geom.ring_locate(t, p) >= 0:
                return f'vertex {p} is in the triangle {t}'
    full = area(g[1]) - sum(area(h) for h in g[2])
    if sum(map(geom.area2, ts)) != full:
        return f'triangles {ts} do not fill the polygon'
    sides, E = {}, {frozenset(e) for e in edges}
    for t in ts:
        for k in range(3):
            sides.setdefault(frozenset((t[k], t[k - 1])), []).append(t)
    if not E <= sides.keys():
        return f'edges {E - sides.keys()} are missing'
    for e, tt in sides.items():
        if len(tt) != (1 if e in E else 2):
            return f'{sorted(e)} is a side of {len(tt)} triangles'
        if len(tt) == 2:
            (o,) = set(tt[1]) - e
            if incircle(*tt[0], o) > 0:
                return f'{sorted(e)} is not locally Delaunay'
    return border_defect(border, g[1])


def constrained_job(sh, g, what):
    name = 'ConstrainedDelaunayTriangulation'

    def shown(i):
        return show(sh, i, g)
    t = from_(sh, name, 'from_polygon', sh.B.make(g))
    sh.escaped('no-exception', f'{name}.from_polygon', shown)
    if not t.cov():
        return
    ts, border = triangles(sh, t, name, shown)
    for i in ts.keys() & border.keys():
        G = ground(g, sh.D.reps[i])
        d = constrained_defect(G, [c[1] for c in ts[i]], border[i][1])
        sh.R.check('constrained-delaunay', d is None, name,
                   lambda: f'{what}: triangulation of {G}: {d}')


def constrained(rep):
    jobs = []
    n = 0

    def add(what, g, reps, step=30):
        nonlocal n
        n += len(reps)
        jobs.extend(jobs_of(constrained_job, reps, (g, what), step))

    def place(q):
        return {f'a.{c}{i}': v for i, p in enumerate(q)
                for c, v in zip('xy', p)}
    for k, name, m in ((3, 'triangle', None), (4, 'quadrangle', 500),
                       (5, 'pentagon', 600), (6, 'hexagon', 400),
                       (7, 'heptagon', 200)):
        add(name, ('Polygon', [P(i) for i in range(k)], []),
            ring_pool(k, m and deep(rep, m), rep.seed, 4 if k < 4 else 5))
    for name in ('rect', 'ell', 'cup', 'bracket', 'frame'):
        g = SHAPES[name].at('a')
        for k in range(len(g[1])):
            for d in (1, -1):
                ring = (g[1][k:] + g[1][:k])[::d]
                add(name, ('Polygon', ring, g[2]), stretched(name, rep))
    pool = [q for q in valid_points('holed', 5)]
    add('holed', free_shape('holed', 'a'), [
        place(q) for q in pool if noded(q[:3], q[3:])])
    rep.note(f'{n} order types')
    jobs.append((leaning_triangulation, [{}], ('',)))
    finish(rep, jobs, {
        'constrained-delaunay': 'triangles are counterclockwise, on '
        'vertices of the polygon, fill it, its edges are their sides, '
        'inner sides are locally Delaunay; the border is the polygon border'
    }, {'constrained-delaunay': n})


def stretched(name, rep):
    """rectangular shapes of several proportions"""
    rng = random.Random(f'{name} {rep.seed}')
    base = classes(name)[0]
    out = []
    for _ in range(deep(rep, 6)):
        steps = {}
        for ax in 'xy':
            v = 0
            for s in sorted(k for k in base if k.split('.')[1][0] == ax):
                steps[s] = v
                v += rng.choice((1, 1, 2, 3, 5))
        out.append(steps)
    return out


def noded(border, hole):
    """does a hole touch the border at no more than one common vertex?"""
    touch = [geom.common(*s, *t) for s in geom.ring_edges(list(border))
             for t in geom.ring_edges(list(hole))]
    touch = {r[1] if r[0] == 'point' else None for r in touch
             if r[0] != 'none'}
    return len(touch) < 2 and all(p in border and p in hole for p in touch)
