"""Accessors, location, boxes, orientation, equality, validity and dispatch
of the public geometries."""
from __future__ import annotations

import itertools
import random
from fractions import Fraction

from .. import geom
from ..absint import (EnumM, ExcV, K, NONE, NOT_IMPLEMENTED, Num, Obj, PV,
                      Seq, SetO, Term, Undecided)
from ..families import bits, ground, run_jobs
from ..shapes import (FREE, SHAPES, classes, free_classes, free_shape,
                      signature, valid_free)
from .segments import witnesses as segment_pairs
from .setops import RULES, TRUSTED, show

NO_EXC = RULES['no-exception']


def free_points(n, limit, seed, ok, grid=5, tag=''):
    """witnesses of ``limit`` distinct order types of n points satisfying
    ``ok(points)``; exhaustive over the grid when the grid is small"""
    out, seen = [], set()

    def add(pts):
        if not ok(pts):
            return
        s = signature(pts)
        if s not in seen:
            seen.add(s)
            out.append({f'a.{c}{i}': v for i, p in enumerate(pts)
                        for c, v in zip('xy', p)})
    cells = list(itertools.product(range(grid), repeat=2))
    if len(cells) ** n <= 50000:
        for pts in itertools.product(cells, repeat=n):
            add(pts)
        if limit is None or len(out) <= limit:
            return out
        random.Random(seed).shuffle(out)
        return out[:limit]
    rng = random.Random(f'{n} {seed} {tag}')
    for _ in range(600 * limit):
        add([rng.choice(cells) for _ in range(n)])
        if len(out) == limit:
            break
    return out


def P(i, p='a'):
    return (f'{p}.x{i}', f'{p}.y{i}')


def jobs_of(fn, reps, args, step=None):
    if step is None:
        step = max(20, min(400, -(-len(reps) // 8)))
    return [(fn, reps[i:i + step], args) for i in range(0, len(reps), step)]


def finish(rep, jobs, rules, floors):
    for k, t in rules.items():
        rep.rule(k, t)
    rep.rule('no-exception', NO_EXC)
    run_jobs(rep, jobs)
    for k, n in floors.items():
        rep.floor(k, n)
    rep.trusted = TRUSTED


def deep(rep, n, k=8):
    return n * k if rep.tier == 'thorough' else n


def shaped_classes(name, extra, limit, seed):
    """order types of one axis-parallel shape and of free coordinates"""
    return classes(name, *extra, limit=limit, seed=seed)


# ---------------------------------------------------------------- rings
def rings(rep, n):
    """(name, ring description, witnesses): simple rings"""
    thorough = rep.tier == 'thorough'

    def simple(pts):
        return geom.ring_defect(list(pts)) is None
    out = [('triangle', [P(i) for i in range(3)],
            free_points(3, None, 1, simple, 3)),
           ('quadrangle', [P(i) for i in range(4)],
            free_points(4, n * (6 if thorough else 1), rep.seed, simple, 4)),
           ('pentagon', [P(i) for i in range(5)],
            free_points(5, n * (6 if thorough else 1), rep.seed, simple))]
    for name in ('box', 'elbow'):
        ring = SHAPES[name].at('a')[1]
        for k in range(len(ring)):
            for d in (1, -1):
                out.append((f'{name} from vertex {k}, direction {d}',
                            (ring[k:] + ring[:k])[::d],
                            classes(name)))
    for name in ('cup', 'bracket'):
        ring = SHAPES[name].at('a')[1]
        for k in range(len(ring)):
            for d in (1, -1):
                out.append((f'{name} from vertex {k}, direction {d}',
                            (ring[k:] + ring[:k])[::d], classes(name)))
    return out


def ring_job(sh, ring, what):
    """orientation and segments of a contour"""
    g = ('Contour', ring)
    c = sh.B.make(g)
    for attr in ('orientation', 'segments', 'vertices'):
        v = sh.I.getattr_pv(c, attr, sh.D.full, None)
        sh.escaped('no-exception', f'Contour.{attr}',
                   lambda i: show(sh, i, g))
        for i, r in sh.X.value(v, v.cov()).items():
            vs = ground(g, sh.D.reps[i])[1]
            if attr == 'orientation':
                w = ('COUNTERCLOCKWISE' if geom.area2(vs) > 0
                     else 'CLOCKWISE')
                sh.R.check('orientation', r == w, 'Contour.orientation',
                           lambda: f'{what}: orientation of {vs} is {r} '
                           f'instead of {w}')
            elif attr == 'segments':
                w = [('Segment', vs[k], vs[(k + 1) % len(vs)])
                     for k in range(len(vs))]
                sh.R.check('segments', r == w, 'Contour.segments',
                           lambda: f'{what}: segments of {vs} are {r}')
            else:
                sh.R.check('segments', r == vs, 'Contour.vertices',
                           lambda: f'{what}: vertices of {vs} are {r}')


def contours(rep):
    jobs = []
    n = 0
    for name, ring, reps in rings(rep, 300):
        n += len(reps)
        jobs += jobs_of(ring_job, reps, (ring, name))
    rep.note(f'{n} order types of rings')
    finish(rep, jobs, {
        'orientation': 'orientation is the sign of the enclosed area',
        'segments': 'segments join each vertex to the next, the last to the '
        'first'}, {'orientation': n, 'segments': 2 * n})


# ---------------------------------------------------------------- location
LOC = {1: 'INTERIOR', 0: 'BOUNDARY', -1: 'EXTERIOR'}


def locate_job(sh, g, pt, what):
    a = sh.B.make(g)
    p = sh.B.point(*pt)
    gp = ('Point', pt)
    r = sh.call(a, 'locate', p)
    sh.escaped('no-exception', f'{g[0]}.locate',
               lambda i: show(sh, i, g, gp))
    for i, v in sh.X.value(r, r.cov()).items():
        rep = sh.D.reps[i]
        A, q = ground(g, rep), ground(gp, rep)[1]
        w = LOC[geom.locate(A, q)]
        sh.R.check('location', v == w, f'{g[0]}.locate',
                   lambda: f'{what}: {A} locates {q} in {v} instead of {w}')
    t = sh.call(a, '__contains__', p)
    sh.escaped('no-exception', f'{g[0]}.__contains__',
               lambda i: show(sh, i, g, gp))
    tm, fm = sh.I.truth(t, t.cov(), None)
    for i in bits(tm | fm):
        rep = sh.D.reps[i]
        A, q = ground(g, rep), ground(gp, rep)[1]
        w = geom.locate(A, q) >= 0
        v = bool(tm >> i & 1)
        sh.R.check('membership', v == w, f'{g[0]}.__contains__',
                   lambda: f'{what}: {q} in {A} is {v}')


def shape_with_point(name, limit, seed):
    return classes(name, 'pt', limit=limit, seed=seed)


def location(rep):
    jobs = []
    n = 0

    def add(what, g, pt, reps):
        nonlocal n
        n += len(reps)
        jobs.extend(jobs_of(locate_job, reps, (g, pt, what)))
    add('segment', ('Segment', P(0), P(1)), P(2),
        free_points(3, None, 1, lambda q: q[0] != q[1], 3))
    add('empty', ('Empty',), P(0), [{'a.x0': 0, 'a.y0': 0}])
    tri = [r for r in four_points() if geom.ring_defect(
        [(r[f'a.x{i}'], r[f'a.y{i}']) for i in range(3)]) is None]
    add('triangle', ('Polygon', [P(0), P(1), P(2)], []), P(3), tri)
    add('triangle ring', ('Contour', [P(0), P(1), P(2)]), P(3),
        tri if rep.tier == 'thorough' else tri[::7])

    def simple(q):
        return geom.ring_defect(list(q[:-1])) is None
    for k, m in ((4, 'quadrangle'), (5, 'pentagon')):
        add(m, ('Polygon', [P(i) for i in range(k)], []), P(k),
            free_points(k + 1, deep(rep, 600), rep.seed, simple))
    two = free_points(5, deep(rep, 600), rep.seed, lambda q: valid_free(
        ('Multisegment', [(q[0], q[1]), (q[2], q[3])])))
    add('multisegment', ('Multisegment', [(P(0), P(1)), (P(2), P(3))]), P(4),
        two)
    for name in ('rect', 'ell', 'cup', 'bracket', 'frame', 'corner', 'side',
                 'stack', 'box', 'elbow', 'rows', 'cross', 'hook'):
        g = SHAPES[name].at('a')
        reps = classes(name, 'pt')
        add(name, g, ('b.x0', 'b.y0'), reps)
        if g[0] == 'Polygon':
            ring = g[1]
            for k in range(1, len(ring)):
                add(f'{name} from vertex {k}',
                    ('Polygon', (ring[k:] + ring[:k])[::(-1) ** k], g[2]),
                    ('b.x0', 'b.y0'), reps)
    for name in ('holed', 'pair'):
        def ok(q, name=name):
            return valid_free(FREE[name][1](list(q[:6])))
        reps = free_points(7, deep(rep, 200), rep.seed, ok, tag=name)
        add(name, free_shape(name, 'a'), P(6), reps)
    rep.note(f'{n} order types')
    finish(rep, jobs, {
        'location': 'locate answers where the point lies',
        'membership': 'a point is `in` a geometry unless it is exterior'},
        {'location': n, 'membership': n})


def four_points():
    """order types of four points whose first two differ"""
    out = []
    for r in segment_pairs():
        v = [r[k] for k in ('a.x0', 'a.y0', 'a.x1', 'a.y1',
                            'b.x0', 'b.y0', 'b.x1', 'b.y1')]
        out.append({f'a.{c}{i}': v[2 * i + j] for i in range(4)
                    for j, c in enumerate('xy')})
    seen = set()
    for r in list(out):      # the file lacks the types with equal c and d
        s = tuple(r[f'a.{c}{i}'] for i in range(3) for c in 'xy')
        if s not in seen:
            seen.add(s)
            q = dict(r)
            q['a.x3'], q['a.y3'] = q['a.x2'], q['a.y2']
            out.append(q)
    return out


# ---------------------------------------------------------- bounding boxes
BOXES = {
    'segment': ('Segment', P(0), P(1)),
    'triangle ring': ('Contour', [P(0), P(1), P(2)]),
    'quadrangle ring': ('Contour', [P(0), P(1), P(2), P(3)]),
    'multisegment': ('Multisegment', [(P(0), P(1)), (P(2), P(3))]),
    'three segments': ('Multisegment', [(P(0), P(0)), (P(1), P(1)),
                                        (P(2), P(2))]),
    'four segments': ('Multisegment', [(P(i), P(i)) for i in range(4)]),
    'polygon': ('Polygon', [P(0), P(1), P(2)], []),
    'polygon of four': ('Polygon', [P(0), P(1), P(2), P(3)], []),
    'multipolygon': ('Multipolygon', [([P(0)] * 3, []), ([P(1)] * 3, []),
                                      ([P(2)] * 3, []), ([P(3)] * 3, [])]),
    'multipolygon of boxes': ('Multipolygon', [
        ([P(0), P(1), P(0)], []), ([P(2), P(3), P(2)], [])]),
}


def box_points(g):
    if g[0] == 'Segment':
        return [g[1], g[2]]
    if g[0] == 'Contour':
        return list(g[1])
    if g[0] == 'Multisegment':
        return [p for s in g[1] for p in s]
    if g[0] == 'Polygon':
        return list(g[1])
    return [p for b, _ in g[1] for p in b]


def box_job(sh, g, what):
    a = sh.B.make(g)
    v = sh.I.getattr_pv(a, 'bounding_box', sh.D.full, None)
    sh.escaped('no-exception', f'{g[0]}.bounding_box',
               lambda i: show(sh, i, g))
    for i, r in sh.X.value(v, v.cov()).items():
        ps = box_points(ground(g, sh.D.reps[i]))
        xs, ys = [p[0] for p in ps], [p[1] for p in ps]
        w = ('Box', min(xs), max(xs), min(ys), max(ys))
        sh.R.check('bounding-box', r == w, f'{g[0]}.bounding_box',
                   lambda: f'{what}: bounding box of {ps} is {r}')


def bounding_boxes(rep):
    from ..worlds import weak_orders
    jobs = []
    n = 0
    rng = random.Random(rep.seed)
    for what, g in BOXES.items():
        names = sorted({c for p in box_points(g) for c in p})
        k = len(names) // 2
        orders = weak_orders(k)
        reps = []
        for xs in orders:
            # the code never compares an abscissa with an ordinate: pair the
            # orders of the two axes along a permutation (both exhaustive)
            reps.append(xs)
        ys = list(orders)
        rng.shuffle(ys)
        reps = [{f'a.{c}{i}': v[i] for c, v in (('x', x), ('y', y))
                 for i in range(k)} for x, y in zip(reps, ys)]
        n += len(reps)
        jobs += jobs_of(box_job, reps, (g, what))
    rep.note(f'{n} order types')
    finish(rep, jobs, {'bounding-box': 'the bounding box is the least box '
                       'containing all vertices'}, {'bounding-box': n})


# ------------------------------------------------------------------ points
def point_job(sh, what):
    a, b = sh.B.point(*P(0)), sh.B.point(*P(1))
    import ast
    cmp = {'<': ast.Lt(), '<=': ast.LtE(), '>': ast.Gt(), '>=': ast.GtE(),
           '==': ast.Eq(), '!=': ast.NotEq()}
    import operator
    fn = {'<': operator.lt, '<=': operator.le, '>': operator.gt,
          '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
    ga, gb = ('Point', P(0)), ('Point', P(1))
    for op, node in cmp.items():
        t = f = 0
        for x, w in a.items():
            for y, u in b.items():
                r = sh.I.compare_atoms(node, x, y, w & u, None)
                t1, f1 = sh.I.truth(r, r.cov(), None)
                t |= t1
                f |= f1
        sh.escaped('no-exception', f'Point {op}',
                   lambda i: show(sh, i, ga, gb))
        for i in bits(t | f):
            rep = sh.D.reps[i]
            p, q = ground(ga, rep)[1], ground(gb, rep)[1]
            v = bool(t >> i & 1)
            sh.R.check('point-order', v == fn[op](p, q), f'Point {op}',
                       lambda: f'{p} {op} {q} is {v}')
    ha, hb = digest(sh, a), digest(sh, b)
    for i in ha.keys() & hb.keys():
        rep = sh.D.reps[i]
        p, q = ground(ga, rep)[1], ground(gb, rep)[1]
        sh.R.check('hash', p != q or ha[i] == hb[i], 'Point.__hash__',
                   lambda: f'equal points {p}, {q} hash differently')
    for at, k in (('x', 0), ('y', 1)):
        v = sh.I.getattr_pv(a, at, sh.D.full, None)
        for i, r in sh.X.value(v, v.cov()).items():
            p = ground(ga, sh.D.reps[i])[1]
            sh.R.check('coordinates', r == p[k], f'Point.{at}',
                       lambda: f'{at} of {p} is {r}')


def points(rep):
    reps = [{'a.x0': x, 'a.y0': y, 'a.x1': 1, 'a.y1': 1}
            for x in (0, 1, 2) for y in (0, 1, 2)]
    finish(rep, [(point_job, reps, ('',))], {
        'point-order': 'points compare lexicographically',
        'hash': 'equal points have equal hashes',
        'coordinates': 'x and y are the given coordinates'},
        {'point-order': 54, 'hash': 9, 'coordinates': 18})


# ------------------------------------------------------- equality and hash
def digest(sh, pv, m=None):
    """{world: description of the hash of the value}"""
    m = sh.D.full if m is None else m
    h = sh.I.call_atom(sh.I.builtin('hash'), [pv], {}, m) \
        if hasattr(sh.I, 'builtin') else None
    if h is None:
        from ..builtins_model import _hash
        h = _hash(sh.I, [pv.at(m)], {}, m, None)
    return hash_value(sh, h, m)


def hash_value(sh, pv, m):
    out = {}
    for a, w in pv.items():
        w &= m
        if not w:
            continue
        if isinstance(a, K):
            out.update({i: ('int', a.v) for i in bits(w)})
        elif isinstance(a, Term):
            if a.fn == 'hash':
                out.update(hashed(sh, a.args[0], w))
            elif a.fn == 'id':
                for x, u in a.args[0].items():
                    out.update({i: ('id', id(x)) for i in bits(u & w)})
            else:
                cols = [hash_value(sh, x, w) for x in a.args
                        if isinstance(x, PV)]
                out.update({i: (a.fn,) + tuple(c[i] for c in cols)
                            for i in bits(w)})
        elif isinstance(a, Num):
            v = sh.X.number(PV.of(a, w), w)
            out.update({i: ('int', v[i]) for i in bits(w)})
        else:
            raise Undecided(f'hash value {a!r}')
    return out


def hashed(sh, pv, m):
    """{world: what hash() of the value depends on}"""
    out = {}
    for a, w in pv.items():
        w &= m
        if not w:
            continue
        if isinstance(a, (Obj, EnumM)):
            out.update(digest(sh, PV.of(a, w), w))
        elif isinstance(a, Num) or (isinstance(a, K) and isinstance(
                a.v, (int, Fraction))):
            v = sh.X.value(PV.of(a, w), w)
            out.update({i: ('number', Fraction(v[i])) for i in bits(w)})
        elif isinstance(a, K):
            out.update({i: (type(a.v).__name__, a.v) for i in bits(w)})
        elif isinstance(a, Seq):
            for ln, (pm, its) in a.parts.items():
                u = pm & w
                cols = [hashed(sh, it, u) for it in its]
                out.update({i: ('tuple',) + tuple(c[i] for c in cols)
                            for i in bits(u)})
        elif isinstance(a, SetO):
            acc = {i: set() for i in bits(w)}
            for v, pm in a.items:
                for i, h in hashed(sh, v, pm & w).items():
                    acc[i].add(h)
            out.update({i: ('set', frozenset(s)) for i, s in acc.items()})
        else:
            raise Undecided(f'hash of {a!r}')
    return out


def norm(g):
    """canonical form of a geometry up to representation"""
    k = g[0]
    if k == 'Segment':
        return (k, frozenset(g[1:]))
    if k == 'Contour':
        r = list(g[1])
        forms = []
        for s in (r, r[::-1]):
            for j in range(len(s)):
                forms.append(tuple(s[j:] + s[:j]))
        return (k, min(forms))
    if k == 'Multisegment':
        return (k, frozenset(frozenset(s) for s in g[1]))
    if k == 'Polygon':
        return (k, norm(('Contour', g[1])),
                frozenset(norm(('Contour', h)) for h in g[2]), len(g[2]))
    if k == 'Multipolygon':
        return (k, frozenset(norm(('Polygon',) + tuple(p)) for p in g[1]))
    return (k,)


def equality_job(sh, pairs, what):
    for ga, gb in pairs:
        a, b = sh.B.make(ga), sh.B.make(gb)
        name = f'{ga[0]} == {gb[0]}'
        t, f = sh.I.eq_pv(a, b, sh.D.full, None)
        sh.escaped('no-exception', name, lambda i: show(sh, i, ga, gb))
        ha, hb = digest(sh, a), digest(sh, b)
        sh.escaped('no-exception', f'hash({ga[0]})',
                   lambda i: show(sh, i, ga, gb))
        for i in bits(t | f):
            rep = sh.D.reps[i]
            A, B = ground(ga, rep), ground(gb, rep)
            w = norm(A) == norm(B)
            v = bool(t >> i & 1)
            sh.R.check('equality', v == w, name,
                       lambda: f'{what}: {A} == {B} is {v}')
            if w and i in ha and i in hb:
                sh.R.check('hash', ha[i] == hb[i], f'{ga[0]}.__hash__',
                           lambda: f'{what}: equal {A}, {B} hash '
                           'differently')


def equality(rep):
    jobs = []
    n = 0

    def add(what, pairs, reps, step=None):
        nonlocal n
        n += len(pairs) * len(reps)
        jobs.extend(jobs_of(equality_job, reps, (pairs, what), step))
    pairs4 = segment_pairs()
    add('segments', [(('Segment', P(0), P(1)),
                      ('Segment', P(0, 'b'), P(1, 'b')))],
        pairs4 if rep.tier == 'thorough' else pairs4[::3])

    def simple(pts):
        return geom.ring_defect(list(pts)) is None
    for k, lim, grid in ((3, None, 3), (4, deep(rep, 60), 4),
                         (5, deep(rep, 40), 5)):
        ring = [P(i) for i in range(k)]
        perms = list(itertools.permutations(range(k)))
        if k == 5:
            perms = [p for j, p in enumerate(perms)
                     if p[0] == 0 or j % 3 == 0]
        reps = free_points(k, lim, rep.seed, simple, grid)
        add(f'{k}-ring permutations',
            [(('Contour', ring), ('Contour', [ring[j] for j in p]))
             for p in perms], reps, 60)
        # polygons over the same rings
        rot = [ring[j:] + ring[:j] for j in range(k)]
        rot += [r[::-1] for r in rot]
        add(f'{k}-gon rotations',
            [(('Polygon', ring, []), ('Polygon', r, [])) for r in rot],
            reps[:deep(rep, 40)], 60)
    # another vertex in place of one of them
    reps = free_points(5, deep(rep, 80), rep.seed,
                       lambda q: simple(q[:4]) and simple(q[1:]))
    ring = [P(i) for i in range(4)]
    add('replaced vertex', [
        (('Contour', ring), ('Contour', ring[1:] + [P(4)])),
        (('Contour', ring), ('Contour', [P(4)] + ring[1:])),
        (('Contour', ring + [P(4)]), ('Contour', ring)),
        (('Polygon', ring, []), ('Polygon', ring[1:] + [P(4)], []))],
        [r for r in reps])
    # multisegments
    segs = [(P(0), P(1)), (P(2), P(3)), (P(4), P(5))]
    flip = [(b, a) for a, b in segs]
    ms = []
    for k in (2, 3):
        for p in itertools.permutations(range(k)):
            for f in itertools.product((0, 1), repeat=k):
                ms.append((('Multisegment', segs[:k]),
                           ('Multisegment', [(flip if x else segs)[j]
                                             for j, x in zip(p, f)])))
    ms += [(('Multisegment', segs[:2]), ('Multisegment', segs[1:])),
           (('Multisegment', segs), ('Multisegment', segs[:2])),
           (('Multisegment', segs[1:]), ('Multisegment', segs)),
           (('Multisegment', segs[:2]), ('Multisegment', [
               (P(0), P(2)), (P(1), P(3))]))]

    def distinct(q):
        s = [frozenset(q[i:i + 2]) for i in (0, 2, 4)]
        return all(len(x) == 2 for x in s) and len(set(s)) == 3
    add('multisegments', ms, free_points(6, deep(rep, 60), rep.seed,
                                         distinct, 4))
    # holes and parts
    hv = [(f'a.x{i}', f'a.y{j}') for i, j in ((1, 1), (1, 2), (2, 2),
                                              (2, 1))]
    hw = [(f'a.x{i}', f'a.y{j}') for i, j in ((3, 1), (3, 2), (4, 2),
                                              (4, 1))]
    border = [(f'a.x{i}', f'a.y{j}') for i, j in ((0, 0), (5, 0), (5, 3),
                                                  (0, 3))]
    rep1 = dict({f'a.x{i}': i for i in range(6)},
                **{f'a.y{i}': i for i in range(4)})

    def dih(r):
        o = [r[j:] + r[:j] for j in range(len(r))]
        return o + [x[::-1] for x in o]
    pol = [(('Polygon', border, [hv, hw]), ('Polygon', b, list(h)))
           for b in dih(border)
           for h in ([hv, hw], [hw, hv], [hw[::-1], hv], [hv], [hw], [],
                     [hv, [border[0], hv[0], hw[0]]])]
    pol += [(('Polygon', border, [hv]), ('Polygon', border, [h]))
            for h in dih(hv) + dih(hw)]
    pol += [(('Polygon', border, []), ('Polygon', hv, [])),
            (('Polygon', border, []), ('Polygon', border, [hv])),
            (('Polygon', border, [hv]), ('Polygon', border, []))]
    add('holes', pol, [rep1])
    mp = []
    parts = [(hv[::-1], []), (hw[::-1], []), (border, [hv, hw])]
    for k in (2, 3):
        for p in itertools.permutations(range(k)):
            mp.append((('Multipolygon', parts[:k]),
                       ('Multipolygon', [parts[j] for j in p])))
            mp.append((('Multipolygon', parts[:k]),
                       ('Multipolygon', [(dih(parts[j][0])[3 - j],
                                          parts[j][1][::-1]) for j in p])))
    mp += [(('Multipolygon', parts[:2]), ('Multipolygon', parts[1:])),
           (('Multipolygon', parts), ('Multipolygon', parts[1:])),
           (('Multipolygon', parts[1:]), ('Multipolygon', parts)),
           (('Multipolygon', parts[:2]),
            ('Multipolygon', [parts[0], (border, [])]))]
    add('parts', mp, [rep1])
    # different kinds
    kinds = [('Empty',), ('Segment', border[0], border[1]),
             ('Contour', border), ('Multisegment', [
                 (border[0], border[1]), (border[1], border[2])]),
             ('Polygon', border, []), ('Multipolygon', [
                 (hv[::-1], []), (hw[::-1], [])])]
    add('kinds', [(a, b) for a in kinds for b in kinds], [rep1])
    rep.note(f'{n} pairs')
    finish(rep, jobs, {
        'equality': 'geometries are equal exactly when they differ only in '
        'starting vertex, direction or order of parts',
        'hash': 'equal geometries have equal hashes'},
        {'equality': n, 'hash': 1000})


# ---------------------------------------------------------------- validity
def validity_job(sh, g, what):
    a = sh.B.make(g)
    r = sh.call(a, 'is_valid')
    sh.escaped('no-exception', f'{g[0]}.is_valid', lambda i: show(sh, i, g))
    t, f = sh.I.truth(r, r.cov(), None)
    for i in bits(t | f):
        A = ground(g, sh.D.reps[i])
        w = valid(A)
        v = bool(t >> i & 1)
        sh.R.check('validity', v == w, f'{g[0]}.is_valid',
                   lambda: f'{what}: is_valid of {A} is {v}')


def valid(g):
    if g[0] == 'Contour':
        return geom.ring_defect(g[1]) is None
    segs = g[1]
    for i, s in enumerate(segs):
        for t in segs[:i]:
            k, x = (geom.common(*s, *t) + (None,))[:2]
            if k == 'segment':
                return False
            if k == 'point' and not (x in s and x in t):
                return False
    return True


def validity(rep):
    jobs = []
    n = 0

    def add(what, g, reps):
        nonlocal n
        n += len(reps)
        jobs.extend(jobs_of(validity_job, reps, (g, what)))
    add('segment pairs', ('Multisegment', [
        (P(0), P(1)), (P(0, 'b'), P(1, 'b'))]), segment_pairs())

    def proper(q):
        return all(q[i] != q[i + 1] for i in range(0, len(q), 2))

    def almost(q):
        # at most one pair of segments is in conflict
        bad = 0
        for i in range(0, len(q), 2):
            for j in range(0, i, 2):
                bad += not valid(('Multisegment', [q[i:i + 2],
                                                   q[j:j + 2]]))
        return bad < 2 and proper(q)
    for k, lim in ((3, 1600), (4, 600)):
        add(f'{k} segments', ('Multisegment', [
            (P(2 * i), P(2 * i + 1)) for i in range(k)]),
            free_points(2 * k, deep(rep, lim), rep.seed, almost, 4,
                        'almost'))

    def distinct(q):
        return all(q[i] != q[i - 1] for i in range(len(q)))
    add('triangles', ('Contour', [P(i) for i in range(3)]),
        free_points(3, None, 1, distinct, 3))
    for k, lim, grid in ((4, 4000, 3), (5, 1500, 4), (6, 500, 4)):
        for tag, ok in (('any', distinct), ('simple', lambda q:
                        geom.ring_defect(list(q)) is None)):
            add(f'rings of {k}, {tag}', ('Contour', [
                P(i) for i in range(k)]),
                free_points(k, deep(rep, lim // (1 if k == 4 else 2)),
                            rep.seed, ok, grid, tag))
    rep.note(f'{n} order types')
    finish(rep, jobs, {
        'validity': 'is_valid tells whether the segments cross or overlap '
        'nowhere, the ring neither touches itself nor has collinear '
        'neighbours'}, {'validity': n})


# ---------------------------------------------------------------- dispatch
def sample(kind, p):
    v = {f'{p}{k}': None for k in ()}
    o = {'a': 0, 'b': 1}[p]

    def q(x, y):
        return (o + x, o + y)
    sq = [q(0, 0), q(2, 0), q(2, 2), q(0, 2)]
    return {'Empty': ('Empty',), 'Segment': ('Segment', q(0, 0), q(2, 1)),
            'Contour': ('Contour', sq),
            'Multisegment': ('Multisegment', [(q(0, 0), q(2, 1)),
                                              (q(0, 2), q(2, 2))]),
            'Polygon': ('Polygon', sq, []),
            'Multipolygon': ('Multipolygon', [
                (sq, []), ([q(4, 4), q(5, 4), q(4, 5)], [])])}[kind]


KINDS = ('Empty', 'Segment', 'Contour', 'Multisegment', 'Polygon',
         'Multipolygon')
LINEAR = ('Segment', 'Contour', 'Multisegment')
SHAPED = ('Polygon', 'Multipolygon')


def defined(op, a, b):
    if 'Empty' in (a, b) or op == '&':
        return True
    if a in LINEAR and b in LINEAR or a in SHAPED and b in SHAPED:
        return True
    return op == '-' and a in ('Contour', 'Multisegment') and b in SHAPED


def dispatch_job(sh, what):
    for ka in KINDS:
        ga = sample(ka, 'a')
        for kb in KINDS:
            gb = sample(kb, 'b')
            a, b = sh.B.make(ga), sh.B.make(gb)
            for op in '&|-^':
                name = f'{ka} {op} {kb}'
                r = sh.binary(op, a, b)
                exc = sh.I.handlers[0][:]
                sh.I.handlers[0].clear()
                if defined(op, ka, kb):
                    sh.R.check('defined', r.cov() and not exc, name,
                               lambda: f'{name} raises {exc[:1]}')
                    for v in sh.X.value(r, r.cov()).values():
                        d = geom.operation_defect(op, ga, gb, v)
                        sh.R.check('result', d is None, name,
                                   lambda: f'{ga} {op} {gb} gives {v}: {d}')
                        if kb == 'Empty' and op in '|-^' or \
                                ka == 'Empty' and op in '|^':
                            w = ga if kb == 'Empty' else gb
                            sh.R.check('empty-law', v == w, name,
                                       lambda: f'{ga} {op} {gb} gives {v}')
                else:
                    sh.R.check('undefined', not r.cov() and all(
                        'TypeError' in repr(e[0]) for e in exc), name,
                        lambda: f'{name} does not raise TypeError')
            r = sh.call(a, 'relate_to', b)
            sh.escaped('defined', f'{ka}.relate_to({kb})',
                       lambda i: f'{ga}, {gb}')
            for v in sh.X.value(r, r.cov()).values():
                w = geom.relation(ga, gb)
                sh.R.check('result', v == w, f'{ka}.relate_to({kb})',
                           lambda: f'{ga} relate_to {gb} answers {v} '
                           f'instead of {w}')
        for other in (K(1), NONE):
            o = PV.of(other, sh.D.full)
            for op in '&|-^':
                r = sh.binary(op, a, o)
                exc = sh.I.handlers[0][:]
                sh.I.handlers[0].clear()
                sh.R.check('undefined', not r.cov() and all(
                    'TypeError' in repr(e[0]) for e in exc),
                    f'{ka} {op} other',
                    lambda: f'{ka} {op} {other!r} does not raise TypeError')
            t, f = sh.I.eq_pv(a, o, sh.D.full, None)
            sh.escaped('defined', f'{ka} == other', lambda i: repr(other))
            sh.R.check('undefined', f and not t, f'{ka} == other',
                       lambda: f'{ka} == {other!r}')
    # a geometry is unchanged by meeting and uniting with itself, and what
    # is left of it minus itself is empty
    for ka in KINDS:
        ga = sample(ka, 'a')
        a, b = sh.B.make(ga), sh.B.make(ga)
        for op in '&|-^':
            r = sh.binary(op, a, b)
            sh.escaped('defined', f'{ka} {op} itself', lambda i: str(ga))
            for v in sh.X.value(r, r.cov()).values():
                d = geom.operation_defect(op, ga, ga, v)
                sh.R.check('result', d is None, f'{ka} {op} itself',
                           lambda: f'{ga} {op} itself gives {v}: {d}')


def dispatch(rep):
    finish(rep, [(dispatch_job, [{}], ('',))], {
        'defined': 'the operator or relation is defined for the kinds and '
        'raises nothing',
        'undefined': 'operators of other kinds raise TypeError',
        'result': 'the result at a sample is the point-set operation',
        'empty-law': 'empty is neutral for |, - and ^'},
        {'defined': 90, 'undefined': 40, 'result': 120, 'empty-law': 20})


# ------------------------------------------------------------ construction
def construction_job(sh, what):
    full = sh.D.full
    pt = [sh.B.point(x, y) for x, y in ((0, 0), (4, 0), (0, 4), (5, 5))]
    seg = [sh.B.call('Segment', pt[0], pt[1]), sh.B.call(
        'Segment', pt[0], pt[2]), sh.B.call('Segment', pt[2], pt[3])]
    ring = sh.B.call('Contour', sh.B.seq(pt[:3]))
    pol = [sh.B.call('Polygon', ring, sh.B.seq([]))] * 3
    for cls, items, least in (('Contour', pt, 3), ('Multisegment', seg, 2),
                              ('Multipolygon', pol, 2)):
        for n in range(4):
            r = sh.I.call_atom(sh.B.c(cls), [sh.B.seq(items[:n])], {}, full)
            exc = sh.I.handlers[0][:]
            sh.I.handlers[0].clear()
            if n < least:
                sh.R.check('too-few', not r.cov() and exc and all(
                    'ValueError' in repr(e[0]) for e in exc), cls,
                    lambda: f'{cls} of {n} does not raise ValueError')
            else:
                sh.R.check('accepted', r.cov() == full and not exc, cls,
                           lambda: f'{cls} of {n} raises {exc}')


def seed_job(sh, what):
    full = sh.D.full
    fn = sh.I.get('rene._utils:validate_seed')
    top = 2 ** 64 - 1
    for v, want in ((0, None), (1, None), (7, None), (top, None),
                    (top - 1, None), (top // 2, None),
                    (top // 2 + 1, None), (-1, 'ValueError'),
                    (-7, 'ValueError'), (top + 1, 'OverflowError'),
                    (2 * top, 'OverflowError'), ('a', 'TypeError'),
                    (None, 'TypeError')):
        r = sh.I.call_atom(fn, [PV.of(K(v), full)], {}, full)
        exc = sh.I.handlers[0][:]
        sh.I.handlers[0].clear()
        if want is None:
            ok = r.cov() == full and not exc
        else:
            ok = not r.cov() and exc and all(want in repr(e[0])
                                             for e in exc)
        sh.R.check('seed', ok, 'validate_seed',
                   lambda: f'validate_seed({v!r}): expected {want}, got '
                   f'{exc[:1]}')


def construction(rep):
    finish(rep, [(construction_job, [{}], ('',)), (seed_job, [{}], ('',))], {
        'too-few': 'a constructor of too few parts raises ValueError',
        'accepted': 'a constructor of enough parts succeeds',
        'seed': 'seeds are natural numbers of 64 bits'},
        {'too-few': 6, 'accepted': 4, 'seed': 13})
