"""Exact planar set theory on witness coordinates: the specification side.

Written from the definitions (point sets), independently of the analysed
sources.  Regions are lists of (border, holes); linear sets are lists of
(start, end)."""
from __future__ import annotations

from fractions import Fraction as F


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def on_segment(a, b, p):
    return (orient(a, b, p) == 0
            and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def common(a, b, c, d):
    """('none',) / ('point', p) / ('segment', p, q)"""
    den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    if den == 0:
        if orient(a, b, c) != 0:
            return ('none',)
        lo = max(min(a, b), min(c, d))
        hi = min(max(a, b), max(c, d))
        if lo > hi:
            return ('none',)
        return ('point', lo) if lo == hi else ('segment', lo, hi)
    if (orient(a, b, c) * orient(a, b, d) > 0
            or orient(c, d, a) * orient(c, d, b) > 0):
        return ('none',)
    num = (c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])
    t = F(num) / F(den)
    return ('point', (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t))


def ring_edges(ring):
    return [(ring[i - 1], ring[i]) for i in range(len(ring))]


def area2(ring):
    return sum(p[0] * q[1] - p[1] * q[0] for p, q in ring_edges(ring))


def ring_locate(ring, p):
    """1 inside, 0 on, -1 outside"""
    inside = False
    for a, b in ring_edges(ring):
        if on_segment(a, b, p):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            lo, hi = (a, b) if a[1] < b[1] else (b, a)
            if orient(lo, hi, p) > 0:
                inside = not inside
    return 1 if inside else -1


def region_locate(polys, p):
    best = -1
    for border, holes in polys:
        r = ring_locate(border, p)
        if r > 0:
            for h in holes:
                k = ring_locate(h, p)
                if k >= 0:
                    r = -k
                    break
        best = max(best, r)
    return best


def region_edges(polys):
    out = []
    for border, holes in polys:
        out += ring_edges(border)
        for h in holes:
            out += ring_edges(h)
    return out


def linear_locate(segs, p):
    """0 on the set, -1 off it"""
    return 0 if any(on_segment(a, b, p) for a, b in segs) else -1


class Slabs:
    """vertical slab decomposition by a set of edges"""

    def __init__(self, edges):
        edges = list({(min(e), max(e)) for e in edges})
        xs = set()
        for i, (a, b) in enumerate(edges):
            xs.add(a[0])
            xs.add(b[0])
            for c, d in edges[:i]:
                r = common(a, b, c, d)
                if r[0] == 'point':
                    xs.add(r[1][0])
        xs = sorted(xs)
        self.faces = []       # (slab, k, sample point)
        self.slabs = []
        for s in range(len(xs) - 1):
            l, r = xs[s], xs[s + 1]
            mid = F(l + r) / 2
            rows = {}
            for a, b in edges:
                if a[0] <= l and r <= b[0] and a[0] < b[0]:
                    def y(x, a=a, b=b):
                        return a[1] + F((b[1] - a[1]) * (x - a[0])) / F(
                            b[0] - a[0])
                    rows[y(mid)] = (y(l), y(r))
            ys = sorted(rows)
            cells = []
            for k in range(len(ys) - 1):
                p = (mid, F(ys[k] + ys[k + 1]) / 2)
                cells.append((p, rows[ys[k]], rows[ys[k + 1]]))
                self.faces.append((s, k, p))
            self.slabs.append((l, r, cells))

    def components(self, keep):
        """number of edge-connected components of the kept faces"""
        ids = {}
        for s, k, p in self.faces:
            if keep(p):
                ids[s, k] = (s, k)

        def find(x):
            while ids[x] != x:
                x = ids[x]
            return x
        for s, (l, r, cells) in enumerate(self.slabs):
            for k in range(len(cells)):
                if (s, k) not in ids:
                    continue
                if (s, k + 1) in ids:
                    ids[find((s, k))] = find((s, k + 1))
                if s + 1 < len(self.slabs):
                    lo, hi = cells[k][1][1], cells[k][2][1]
                    for j, c in enumerate(self.slabs[s + 1][2]):
                        if (s + 1, j) in ids:
                            lo2, hi2 = c[1][0], c[2][0]
                            if max(lo, lo2) < min(hi, hi2):
                                ids[find((s, k))] = find((s + 1, j))
        return len({find(x) for x in ids})


def pieces(segs_groups):
    """split all segments at all their common points; elementary pieces"""
    allsegs = [s for g in segs_groups for s in g]
    out = set()
    for a, b in allsegs:
        pts = {a, b}
        for c, d in allsegs:
            r = common(a, b, c, d)
            for p in r[1:]:
                pts.add(p)
        pts = sorted(pts)
        for p, q in zip(pts, pts[1:]):
            out.add((p, q))
    return out


def middle(p, q):
    return (F(p[0] + q[0]) / 2, F(p[1] + q[1]) / 2)


OPS = {'&': lambda a, b: a and b, '|': lambda a, b: a or b,
       '-': lambda a, b: a and not b, '^': lambda a, b: a != b}


# ----------------------------------------------------------------- geometries
# ('Empty',) ('Segment', p, q) ('Contour', pts) ('Multisegment', segs)
# ('Polygon', border, holes) ('Multipolygon', [(border, holes)])
def dim(g):
    return {'Empty': -1, 'Segment': 1, 'Contour': 1, 'Multisegment': 1,
            'Polygon': 2, 'Multipolygon': 2}[g[0]]


def segs_of(g):
    if g[0] == 'Segment':
        return [(g[1], g[2])]
    if g[0] == 'Contour':
        return ring_edges(g[1])
    if g[0] == 'Multisegment':
        return list(g[1])
    return []


def polys_of(g):
    if g[0] == 'Polygon':
        return [(g[1], g[2])]
    if g[0] == 'Multipolygon':
        return list(g[1])
    return []


def locate(g, p):
    if dim(g) == 1:
        return linear_locate(segs_of(g), p)
    if dim(g) == 2:
        return region_locate(polys_of(g), p)
    return -1


def well_formed(g):
    """None or a defect of a result geometry"""
    k = g[0]
    if k == 'Empty':
        return None
    if k == 'Segment':
        return 'degenerate segment' if g[1] == g[2] else None
    if k in ('Contour', 'Multisegment'):
        segs = segs_of(g)
        if any(a == b for a, b in segs):
            return 'degenerate segment'
        for i, s in enumerate(segs):
            for t in segs[:i]:
                if common(*s, *t)[0] == 'segment':
                    return 'overlapping segments'
        if k == 'Multisegment' and len(segs) < 2:
            return 'multisegment of fewer than two segments'
        if k == 'Contour':
            return ring_defect(g[1])
        return None
    polys = polys_of(g)
    if k == 'Multipolygon' and len(polys) < 2:
        return 'multipolygon of fewer than two polygons'
    for border, holes in polys:
        for ring in [border] + list(holes):
            d = ring_defect(ring)
            if d:
                return d
        if area2(border) <= 0:
            return 'border is not counterclockwise'
        for h in holes:
            if area2(h) >= 0:
                return 'hole is not clockwise'
            for p, q in ring_edges(h):
                if ring_locate(border, middle(p, q)) < 0:
                    return 'hole outside of its border'
    edges = region_edges(polys)
    for i, s in enumerate(edges):
        for t in edges[:i]:
            r = common(*s, *t)
            if r[0] == 'segment':
                return 'boundaries share a segment'
            if r[0] == 'point' and r[1] not in s and r[1] not in t:
                return 'boundaries cross'
    return None


def ring_defect(ring):
    n = len(ring)
    if n < 3:
        return 'ring of fewer than three vertices'
    if len(set(ring)) != n:
        return 'repeated vertex'
    for i in range(n):
        if orient(ring[i - 2], ring[i - 1], ring[i]) == 0:
            return 'collinear consecutive vertices'
    edges = ring_edges(ring)
    for i, s in enumerate(edges):
        for j, t in enumerate(edges[:i]):
            r = common(*s, *t)
            adjacent = i - j == 1 or (i == n - 1 and j == 0)
            if r[0] == 'segment' or (r[0] == 'point' and not adjacent):
                return 'self-touching ring'
    return None


def operation_defect(op, a, b, r):
    """None, or why r is not ``a op b`` (regularised set operation)"""
    f = OPS[op]
    d = well_formed(r)
    if d:
        return d
    if dim(a) == -1 or dim(b) == -1:
        want = f(dim(a) != -1, False) or f(False, dim(b) != -1)
        src = a if dim(a) != -1 else b
        if not want:
            return None if r[0] == 'Empty' else 'expected Empty'
        return same_set(src, r)
    if dim(a) == 2 and dim(b) == 2:
        if dim(r) == 1:
            return 'linear result of shaped operands'
        pa, pb, pr = polys_of(a), polys_of(b), polys_of(r)
        sl = Slabs(region_edges(pa) + region_edges(pb) + region_edges(pr))

        def keep(p):
            return f(region_locate(pa, p) > 0, region_locate(pb, p) > 0)
        for _, _, p in sl.faces:
            k = sum(region_locate([q], p) > 0 for q in pr)
            if keep(p) != (k > 0):
                return ('misses' if keep(p) else 'contains') + \
                    f' ({p[0]}, {p[1]})'
            if k > 1:
                return f'covers ({p[0]}, {p[1]}) more than once'
        n = sl.components(keep)
        if len(pr) > n:
            return f'{len(pr)} polygons for {n} connected parts'
        return None
    if dim(r) == 2:
        return 'shaped result of a linear operand'
    sa, sb, sr = segs_of(a), segs_of(b), segs_of(r)
    groups = [g for g in (sa, sb, sr) if g]
    extra = [region_edges(polys_of(g)) for g in (a, b) if dim(g) == 2]
    ps = pieces(groups + extra)
    for p, q in ps:
        m = middle(p, q)
        ina = locate(a, m) >= 0
        inb = locate(b, m) >= 0
        on = ina if dim(a) == 1 and dim(b) == 2 else (
            inb if dim(b) == 1 and dim(a) == 2 else True)
        want = on and f(ina, inb)
        if want != (linear_locate(sr, m) >= 0):
            return ('misses' if want else 'contains') + \
                f' ({m[0]}, {m[1]})'
    return None


def same_set(a, b):
    if dim(a) != dim(b):
        return f'{b[0]} for {a[0]}'
    if dim(a) == 1:
        return operation_defect('|', a, a, b)
    if dim(a) == 2:
        return operation_defect('|', a, a, b)
    return None


def relation(a, b):
    da, db = dim(a), dim(b)
    if da == -1 or db == -1:
        return 'EQUAL' if da == db else 'DISJOINT'
    if da == 2 and db == 2:
        pa, pb = polys_of(a), polys_of(b)
        ea, eb = region_edges(pa), region_edges(pb)
        sl = Slabs(ea + eb)
        ii = ie = ei = False
        for _, _, p in sl.faces:
            x, y = region_locate(pa, p) > 0, region_locate(pb, p) > 0
            ii |= x and y
            ie |= x and not y
            ei |= y and not x
        bb = any(common(*s, *t)[0] != 'none' for s in ea for t in eb)
        if not ie and not ei:
            return 'EQUAL'
        if not ii:
            return 'TOUCH' if bb else 'DISJOINT'
        if not ie:
            return ('COMPONENT' if components_of(pa, pb) else
                    'ENCLOSED' if bb else 'WITHIN')
        if not ei:
            return 'COMPOSITE' if components_of(pb, pa) else 'ENCLOSES' if bb else 'COVER'
        return 'OVERLAP'
    if da == 2:
        return COMPLEMENT.get(relation(b, a), relation(b, a))
    if db == 2:
        pb = polys_of(b)
        eb = region_edges(pb)
        sa = segs_of(a)
        ins = on = out = False
        for p, q in pieces([sa, eb]):
            m = middle(p, q)
            if linear_locate(sa, m) < 0:
                continue
            k = region_locate(pb, m)
            ins |= k > 0
            on |= k == 0
            out |= k < 0
        touch = any(common(*s, *t)[0] != 'none' for s in sa for t in eb)
        if ins and out:
            return 'CROSS'
        if ins:
            return 'ENCLOSED' if touch else 'WITHIN'
        if out:
            return 'TOUCH' if touch else 'DISJOINT'
        return 'COMPONENT'
    sa, sb = segs_of(a), segs_of(b)
    both = onlya = onlyb = False
    for p, q in pieces([sa, sb]):
        m = middle(p, q)
        x, y = linear_locate(sa, m) >= 0, linear_locate(sb, m) >= 0
        both |= x and y
        onlya |= x and not y
        onlyb |= y and not x
    if not onlya and not onlyb:
        return 'EQUAL'
    if both:
        if not onlya:
            return 'COMPONENT'
        if not onlyb:
            return 'COMPOSITE'
        return 'OVERLAP'
    touch = cross = False
    for s in sa:
        for t in sb:
            r = common(*s, *t)
            if r[0] == 'point':
                touch = True
                if linear_cross(a, b, r[1]):
                    cross = True
    return 'CROSS' if cross else 'TOUCH' if touch else 'DISJOINT'


def components_of(pa, pb):
    def same(p, q):
        return relation(('Polygon',) + tuple(p),
                        ('Polygon',) + tuple(q)) == 'EQUAL'
    return len(pb) > 1 and all(any(same(p, q) for q in pb) for p in pa)


def directions(g, p):
    out = []
    for u, v in segs_of(g):
        if on_segment(u, v, p):
            out += [(q[0] - p[0], q[1] - p[1]) for q in (u, v) if q != p]
    return out


def turn_key(d):
    """sort directions counterclockwise"""
    x, y = d
    half = 0 if (y > 0 or (y == 0 and x > 0)) else 1
    # slope order inside a half plane, exact
    n = abs(x) + abs(y)
    return (half, -F(x) / F(n) if half == 0 else F(x) / F(n))


def linear_cross(a, b, p):
    """do the branches of the two sets alternate around the common point?"""
    around = sorted([(turn_key(d), 0) for d in directions(a, p)]
                    + [(turn_key(d), 1) for d in directions(b, p)])
    who = [w for _, w in around]
    return sum(who[i] != who[i - 1] for i in range(len(who))) > 2


COMPLEMENT = {'COMPONENT': 'COMPOSITE', 'COMPOSITE': 'COMPONENT',
              'COVER': 'WITHIN', 'WITHIN': 'COVER', 'ENCLOSED': 'ENCLOSES',
              'ENCLOSES': 'ENCLOSED'}
