"""The surface of the library: views of parts, representations, enumerations,
independence of operands and of history."""
from __future__ import annotations

import ast
import itertools
import random
from fractions import Fraction

from .. import geom
from ..absint import (EnumM, K, NONE, Num, Obj, PV, Seq, SliceV, StrT,
                      Undecided)
from ..builtins_model import _len, _reversed
from ..families import Decoder, bits, ground
from ..shapes import FREE, SHAPES, classes
from .basics import (P, deep, digest, finish, free_points, jobs_of, norm)
from .meshes import from_, seeded
from .setops import show


# ------------------------------------------------------------------- views
def raised(sh):
    """{world: names of the exceptions that escaped since the last call}"""
    out = {}
    for exc, m, loc in sh.I.handlers[0]:
        for i in bits(m):
            out.setdefault(i, set()).add(exc_name(exc))
    sh.I.handlers[0].clear()
    return out


def exc_name(exc):
    c = getattr(exc, 'cls', None)
    n = getattr(c, 'name', None)
    return str(n or repr(exc)).split('.')[-1]


def answers(sh, pv):
    """{world: plain value or ('raises', names)}"""
    out = dict(sh.X.value(pv, pv.cov())) if pv.cov() else {}
    for i, names in raised(sh).items():
        out[i] = ('raises', tuple(sorted(names)))
    return out


def method(sh, v, name, *args):
    return sh.call(v, name, *[PV.of(a, sh.D.full) if not isinstance(a, PV)
                              else a for a in args])


def expect(fn, *exc):
    try:
        return fn()
    except exc as e:
        return ('raises', (type(e).__name__,))


def truth(sh, pv):
    t, f = sh.I.truth(pv, pv.cov(), None)
    out = {i: True for i in bits(t)}
    out.update({i: False for i in bits(f)})
    for i, names in raised(sh).items():
        out[i] = ('raises', tuple(sorted(names)))
    return out


def flat(g):
    """description of an item, as decoded -> as compared"""
    return ('Point', g) if isinstance(g[0], (int, Fraction)) else norm(g)


def view_job(sh, g, attr, items, strangers, what):
    """one sequence of parts: every access agrees with the tuple of the
    parts"""
    full = sh.D.full
    owner = sh.B.make(g)
    name = f'{g[0]}.{attr}'

    def fresh():
        v = sh.I.getattr_pv(owner, attr, full, None)
        raised_now = raised(sh)
        sh.R.check('no-exception', not raised_now and v.cov() == full, name,
                   lambda: f'{what}: reading .{attr} raises {raised_now}')
        return v
    v = fresh()
    n = len(items)
    plain = [[ground(g2, sh.D.reps[i]) for g2 in items]
             for i in range(len(sh.D.reps))]
    plain = [[p[1] if p[0] == 'Point' else p for p in row] for row in plain]
    keys = [[flat(p) for p in row] for row in plain]

    def same(rule, got, want, construct, call):
        for i in bits(full):
            a, w = got.get(i), want(i)
            sh.R.check(rule, a == w, construct,
                       lambda: f'{what}: {name}{call} of {plain[i]} is {a} '
                       f'instead of {w}')

    def length(x):
        return answers(sh, _len(sh.I, [x], {}, full, None))
    same('length', length(v), lambda i: n, f'{name}.__len__', '.__len__()')

    def index(x, k):
        return sh.I.getitem_pv(x, PV.of(k, full), full, None)
    for k in range(-n - 2, n + 2):
        same('item', answers(sh, index(v, K(k))),
             lambda i: expect(lambda: plain[i][k], IndexError),
             f'{name}.__getitem__', f'[{k}]')
    cuts = [(a, b, c) for a in (None, 0, 1, 2, -1, -2, n, n + 3)
            for b in (None, 0, 1, 2, -1, n + 3) for c in (None, 1, 2, -1)]
    cuts = cuts if n < 4 else cuts[::5]
    for a, b, c in cuts:
        lo, hi, st = (NONE if x is None else K(x) for x in (a, b, c))
        s = index(v, SliceV(lo, hi, st))
        same('slice', answers(sh, s), lambda i: plain[i][a:b:c],
             f'{name}.__getitem__', f'[{a}:{b}:{c}]')
        ks = {type_name(x) for x in v.d}
        sh.R.check('slice', {type_name(x) for x in s.d} == ks,
                   f'{name}.__getitem__', lambda: f'{what}: a slice of {ks} '
                   f'is {[type_name(x) for x in s.d]}')
        part = [row[a:b:c] for row in keys]
        t, f = sh.I.eq_pv(v, s, full, None)
        got = {i: True for i in bits(t)}
        got.update({i: False for i in bits(f)})
        same('equality', got, lambda i: part[i] == keys[i],
             f'{name}.__eq__', f' == [{a}:{b}:{c}]')
        if (b, c) in ((None, None), (n + 3, 1)) and part[0] == keys[0] \
                and a in (None, 0):
            hv, hs = digest(sh, v), digest(sh, s)
            for i in bits(full):
                sh.R.check('hash', hv.get(i) == hs.get(i),
                           f'{name}.__hash__', lambda: f'{what}: equal '
                           f'sequences {plain[i]} hash differently')
        # a part of a part
        if part[0]:
            same('item', answers(sh, index(s, K(-1))),
                 lambda i: plain[i][a:b:c][-1], f'{name}.__getitem__',
                 f'[{a}:{b}:{c}][-1]')
    # the elements, in both directions
    it = sh.I.to_list(v, full, None)
    same('iteration', answers(sh, PV.of(it, full)), lambda i: plain[i],
         f'{name}.__iter__', '.__iter__()')
    r = PV.of(sh.I.to_list(_reversed(sh.I, [v], {}, full, None), full), full)
    same('iteration', answers(sh, r), lambda i: plain[i][::-1],
         f'{name}.__reversed__', '.__reversed__()')
    tried = []
    for other in items + strangers:
        if other in tried:
            continue
        tried.append(other)
        o = sh.B.make(other)
        ko = []
        for i in range(len(sh.D.reps)):
            p = ground(other, sh.D.reps[i])
            ko.append(flat(p[1] if p[0] == 'Point' else p))
        got = {}
        t = f = 0
        for x, w in v.items():
            for y, u in o.items():
                t1, f1 = sh.I.contains(x, y, w & u, None)
                t, f = t | t1, f | f1
        got = {i: True for i in bits(t)}
        got.update({i: False for i in bits(f)})
        for i, x in raised(sh).items():
            got[i] = x
        same('membership', got, lambda i: ko[i] in keys[i],
             f'{name}.__contains__', f'.__contains__({other})')
        same('count', answers(sh, method(sh, v, 'count', o)),
             lambda i: keys[i].count(ko[i]), f'{name}.count',
             f'.count({other})')
        spans = [(), (0,), (1,), (n - 1,), (n,), (-1,), (-2,), (-n - 1,),
                 (0, n), (0, 1), (1, n), (1, -1), (0, 0), (0, -1), (2, 1),
                 (-2, n + 2), (0, n - 1), (-n, -1)]
        for s in spans:
            same('index', answers(sh, method(sh, v, 'index', o, *[
                K(x) for x in s])),
                lambda i: expect(lambda: keys[i].index(ko[i], *s),
                                 ValueError), f'{name}.index',
                f'.index({other}, {s})')
    # a sequence of parts differs from a tuple or a list of them
    for kind in ('tuple', 'list'):
        o = PV.of(sh.I.to_list(v, full, None, kind), full)
        t, f = sh.I.eq_pv(v, o, full, None)
        sh.R.check('equality', f == full and not t, f'{name}.__eq__',
                   lambda: f'{what}: {name} equals a {kind}')
    w = fresh()
    t, f = sh.I.eq_pv(v, w, full, None)
    sh.R.check('equality', t == full and not f, f'{name}.__eq__',
               lambda: f'{what}: {name} differs from itself')
    sh.escaped('no-exception', name, lambda i: str(plain[i]))


def type_name(a):
    return a.cls.name if isinstance(a, Obj) else type(a).__name__


def views(rep):
    jobs = []
    n = 0

    def add(g, attr, items, strangers, reps, what):
        nonlocal n
        n += len(reps)
        jobs.extend(jobs_of(view_job, reps, (g, attr, items, strangers,
                                             what), 40))

    def some(q):
        return True
    for k, lim, grid in ((3, deep(rep, 40), 2), (4, deep(rep, 20), 2),
                         (5, deep(rep, 10), 3)):
        ring = [P(i) for i in range(k)]
        reps = free_points(k, lim, rep.seed, some, grid, 'view')
        add(('Contour', ring), 'vertices', [('Point', p) for p in ring],
            [('Point', (7, 7))], reps, f'{k} vertices')
        add(('Contour', ring), 'segments', [
            ('Segment', ring[j], ring[(j + 1) % k]) for j in range(k)],
            [('Segment', (7, 7), ring[0])], reps, f'{k} segments')
    for k, lim in ((2, deep(rep, 30)), (3, deep(rep, 15))):
        segs = [(P(2 * j), P(2 * j + 1)) for j in range(k)]
        add(('Multisegment', segs), 'segments',
            [('Segment',) + s for s in segs],
            [('Segment', P(0), P(3)), ('Segment', P(1), P(0))],
            free_points(2 * k, lim, rep.seed, some, 2, 'view'),
            f'{k} segments')
    a, b, c = ([(x, 0), (x + 1, 0), (x, 1)] for x in (0, 2, 4))
    ca, cb, cc = (('Contour', r) for r in (a, b, c))
    rot = ('Contour', b[1:] + b[:1])
    frame = [(-9, -9), (9, -9), (9, 9), (-9, 9)]
    one = [{'a.x0': 0, 'a.y0': 0}]
    for hs in ([], [ca], [ca, cb], [cb, ca, rot], [ca, cb, cc],
               [ca, cb, cc, cb, ca]):
        add(('Polygon', frame, [h[1] for h in hs]), 'holes', hs,
            [('Contour', frame), cc, rot], one, f'{len(hs)} holes')
    pa, pb, pc = (('Polygon', r[1], []) for r in (ca, cb, cc))
    rot = ('Polygon', rot[1], [])
    pf = ('Polygon', frame, [a])
    for ps in ([pa, pb], [pb, pc, rot], [pa, pf, pc], [pc, pb, pa, pf],
               [pa, pb, pa, pb, pf]):
        add(('Multipolygon', [p[1:] for p in ps]), 'polygons', ps,
            [('Polygon', frame, []), pc, rot], one, f'{len(ps)} polygons')
    rep.note(f'{n} order types of parts')
    finish(rep, jobs, {
        'length': 'len() is the number of parts',
        'item': 'indexing from either end yields that part, IndexError '
        'beyond',
        'slice': 'a slice is a sequence of the same type of those parts',
        'iteration': 'iteration yields the parts in order, reversed() '
        'backwards',
        'membership': '`in` tells whether an equal part occurs',
        'count': 'count() is the number of equal parts',
        'index': 'index() is the first position of an equal part within the '
        'span, ValueError when absent',
        'equality': 'sequences are equal when their parts are, in order; '
        'never equal to a plain tuple or list',
        'hash': 'equal sequences have equal hashes'},
        {'length': n, 'item': 8 * n, 'slice': 20 * n, 'iteration': n,
         'membership': 2 * n, 'count': 2 * n, 'index': 30 * n,
         'equality': 20 * n, 'hash': n})


# --------------------------------------------------------- representations
class Shown(Exception):
    pass


def rendered(sh, pv):
    """{world: (text with numbers named n0, n1..., [(how, number)])}"""
    out = {}
    for a, w in pv.items():
        if isinstance(a, K):
            parts = (str(a.v),)
        elif isinstance(a, StrT):
            parts = a.parts
        else:
            raise Undecided(f'string {a!r}')
        text, nums = '', []
        for p in parts:
            if isinstance(p, str):
                text += p
                continue
            if len(p) != 2 or p[0] not in 'rs' or not isinstance(p[1], Num):
                raise Undecided(f'part {p!r} of a string')
            text += f' n{len(nums)} '
            nums.append((p[0], sh.X.number(PV.of(p[1], w), w)))
        for i in bits(w):
            out[i] = (text, [(h, v[i]) for h, v in nums])
    return out


def parsed(text, nums, how):
    """the geometry that the text describes"""
    def num(e):
        if isinstance(e, ast.Name) and e.id[0] == 'n':
            h, v = nums[int(e.id[1:])]
            if h != how:
                raise Shown(f'a coordinate is shown with '
                            f'{"str" if h == "s" else "repr"}')
            return v
        raise Shown('a coordinate is missing')

    def seq(e):
        if not isinstance(e, ast.List):
            raise Shown('parts are not shown as a list')
        return [go(x) for x in e.elts]

    def go(e):
        if not isinstance(e, ast.Call) or not isinstance(
                e.func, ast.Name) or e.keywords:
            raise Shown('not a constructor call')
        k, args = e.func.id, e.args
        want = {'Point': 2, 'Segment': 2, 'Contour': 1, 'Multisegment': 1,
                'Polygon': 2, 'Multipolygon': 1, 'Box': 4, 'Empty': 0}
        if want.get(k) != len(args):
            raise Shown(f'{k} of {len(args)} arguments')
        if k == 'Point':
            return tuple(num(x) for x in args)
        if k == 'Box':
            return (k,) + tuple(num(x) for x in args)
        if k == 'Segment':
            return (k, go(args[0]), go(args[1]))
        if k == 'Contour':
            return (k, seq(args[0]))
        if k == 'Multisegment':
            return (k, [s[1:] for s in seq(args[0])])
        if k == 'Polygon':
            return (k, go(args[0])[1], [h[1] for h in seq(args[1])])
        if k == 'Multipolygon':
            return (k, [p[1:] for p in seq(args[0])])
        return (k,)
    try:
        tree = ast.parse(text.strip(), mode='eval')
    except SyntaxError:
        raise Shown('not an expression')
    return go(tree.body)


def holding_job(sh, g, what):
    """accessors, repr and str of one geometry"""
    full = sh.D.full
    if g[0] == 'Box':
        a = sh.B.call('Box', *[sh.B.scalar(s) for s in g[1:]])
    else:
        a = sh.B.make(g)

    def want(i):
        rep = sh.D.reps[i]
        if g[0] == 'Box':
            return (g[0],) + tuple(rep[s] for s in g[1:])
        w = ground(g, rep)
        return w[1] if w[0] == 'Point' else w
    got = sh.X.value(a, full)
    sh.escaped('no-exception', g[0], lambda i: str(want(i)))
    for i in bits(full):
        sh.R.check('accessors', got[i] == want(i), f'{g[0]} accessors',
                   lambda: f'{what}: {want(i)} reads as {got[i]}')
    for how, fn in (('r', 'repr'), ('s', 'str')):
        out = PV()
        for x, w in a.items():
            out.merge(sh.I.to_str(x, how, w, None))
        sh.escaped('no-exception', f'{g[0]}.__{fn}__',
                   lambda i: str(want(i)))
        for i, (text, nums) in rendered(sh, out).items():
            try:
                r = parsed(text, nums, how)
            except Shown as e:
                r = str(e)
            shown = text
            for j, (h, v) in reversed(list(enumerate(nums))):
                shown = shown.replace(f' n{j} ', f'<{v}>')
            sh.R.check(fn, r == want(i), f'{g[0]}.__{fn}__',
                       lambda: f'{what}: {fn}() of {want(i)} is {shown}: '
                       f'{r}')


def boxes_job(sh, what):
    """equality and hash of boxes"""
    full = sh.D.full
    a, b = (sh.B.call('Box', *[sh.B.scalar(f'{p}.{s}') for s in (
        'x0', 'x1', 'y0', 'y1')]) for p in 'ab')
    t, f = sh.I.eq_pv(a, b, full, None)
    sh.escaped('no-exception', 'Box.__eq__', lambda i: str(sh.D.reps[i]))
    ha, hb = digest(sh, a), digest(sh, b)
    for i in bits(full):
        rep = sh.D.reps[i]
        w = all(rep[f'a.{s}'] == rep[f'b.{s}'] for s in (
            'x0', 'x1', 'y0', 'y1'))
        sh.R.check('box-equality', bool(t >> i & 1) == w != bool(f >> i & 1),
                   'Box.__eq__', lambda: f'boxes of {rep}: == is '
                   f'{bool(t >> i & 1)}')
        if w:
            sh.R.check('box-hash', ha[i] == hb[i], 'Box.__hash__',
                       lambda: f'equal boxes of {rep} hash differently')
    for other in (K(1), NONE):
        t, f = sh.I.eq_pv(a, PV.of(other, full), full, None)
        sh.R.check('box-equality', f == full and not t, 'Box.__eq__',
                   lambda: f'a box equals {other!r}')


def holding(rep):
    jobs = []
    n = 0

    def add(g, reps, what):
        nonlocal n
        n += len(reps)
        jobs.extend(jobs_of(holding_job, reps, (g, what), 40))
    some = lambda q: True           # noqa: E731

    def pts(k, lim=12, grid=3):
        return free_points(k, lim, rep.seed, some, grid, 'hold')
    add(('Point', P(0)), pts(1), 'point')
    add(('Empty',), [{'a.x0': 0, 'a.y0': 0}], 'empty')
    add(('Box', 'a.x0', 'a.x1', 'a.y0', 'a.y1'), pts(2, 40), 'box')
    add(('Segment', P(0), P(1)), pts(2, 40), 'segment')
    for k in (3, 4, 5):
        add(('Contour', [P(i) for i in range(k)]), pts(k), f'{k}-ring')
        add(('Multisegment', [(P(0), P(i)) for i in range(1, k)]), pts(k),
            f'{k - 1} segments')
    ring = [[P(3 * j + i) for i in range(3)] for j in range(3)]
    for k in range(3):
        add(('Polygon', ring[0], ring[1:k + 1]), pts(3 * k + 3),
            f'{k} holes')
    add(('Multipolygon', [(ring[0], []), (ring[1], [])]), pts(6),
        'two parts')
    add(('Multipolygon', [(ring[0], [ring[1]]), (ring[2], []),
                          (ring[1], [ring[0], ring[2]])]), pts(9),
        'three parts')
    names = [f'{p}.{s}' for p in 'ab' for s in ('x0', 'x1', 'y0', 'y1')]
    boxes = [dict(zip(names, v)) for v in itertools.product(
        (0, 1), repeat=8)]
    jobs += jobs_of(boxes_job, boxes, ('',), 64)
    rep.note(f'{n} geometries by order type, {len(boxes)} pairs of boxes')
    finish(rep, jobs, {
        'accessors': 'the parts read back are those given, in order',
        'repr': 'repr() is a constructor call of the same parts, in order, '
        'with the representations of the coordinates',
        'str': 'str() is a constructor call of the same parts, in order, '
        'with the strings of the coordinates',
        'box-equality': 'boxes are equal when all four bounds are',
        'box-hash': 'equal boxes have equal hashes'},
        {'accessors': n, 'repr': n, 'str': n, 'box-equality': len(boxes),
         'box-hash': 16})


# -------------------------------------------------- operands and history
SQUARE = 'box'
ACCESSORS = {
    'Empty': (), 'Segment': ('start', 'end', 'bounding_box'),
    'Contour': ('vertices', 'segments', 'orientation', 'bounding_box'),
    'Multisegment': ('segments', 'bounding_box'),
    'Polygon': ('border', 'holes', 'bounding_box'),
    'Multipolygon': ('polygons', 'bounding_box')}


def look(sh, a, kind):
    """everything that can be read from a geometry, by accessor"""
    X = Decoder(sh.D, sh.I)
    out = {'value': X.value(a, sh.D.full)}
    for name in ACCESSORS[kind]:
        v = sh.I.getattr_pv(a, name, sh.D.full, None)
        out[name] = X.value(v, sh.D.full)
        if kind == 'Polygon' and name == 'border':
            for more in ('orientation', 'segments'):
                out[f'border.{more}'] = X.value(sh.I.getattr_pv(
                    v, more, sh.D.full, None), sh.D.full)
    return out


def truly(g, i, sh):
    """what ``look`` must find at world i"""
    A = ground(g, sh.D.reps[i])
    out = {'value': A}

    def edges(r):
        return [('Segment', r[k - 1], r[k]) for k in range(1, len(r))] + [
            ('Segment', r[-1], r[0])]

    def turn(r):
        return 'COUNTERCLOCKWISE' if geom.area2(r) > 0 else 'CLOCKWISE'
    k = A[0]
    pts = [p for s in ([A[1:]] if k == 'Segment' else [A[1]]
                       if k in ('Contour', 'Polygon') else A[1]
                       if k == 'Multisegment' else
                       [q[0] for q in A[1]] if k == 'Multipolygon' else [])
           for p in s]
    if pts:
        xs, ys = zip(*pts)
        out['bounding_box'] = ('Box', min(xs), max(xs), min(ys), max(ys))
    if k == 'Segment':
        out['start'], out['end'] = A[1:]
    elif k == 'Contour':
        out.update(vertices=A[1], segments=edges(A[1]),
                   orientation=turn(A[1]))
    elif k == 'Multisegment':
        out['segments'] = [('Segment',) + tuple(s) for s in A[1]]
    elif k == 'Polygon':
        out['border'] = ('Contour', A[1])
        out['holes'] = [('Contour', h) for h in A[2]]
        out['border.orientation'] = turn(A[1])
        out['border.segments'] = edges(A[1])
    elif k == 'Multipolygon':
        out['polygons'] = [('Polygon',) + tuple(p) for p in A[1]]
    return out


def intact(sh, a, g, after, what):
    seen = look(sh, a, g[0])
    for i in bits(sh.D.full):
        want = truly(g, i, sh)
        for name, w in want.items():
            v = seen[name][i]
            sh.R.check('operand', v == w, f'{g[0]}.{name}',
                       lambda: f'{what}: after {after}, .{name} of {want} '
                       f'reads as {v}')


def of_ring(kind, ring, other):
    """a geometry of each kind around a box"""
    tri = [ring[0], ring[1], ring[2]]
    return {'Empty': ('Empty',), 'Segment': ('Segment', ring[0], ring[2]),
            'Contour': ('Contour', ring),
            'Multisegment': ('Multisegment', [
                (ring[0], ring[1]), (ring[1], ring[2]), (ring[0], other)]),
            'Polygon': ('Polygon', ring, []),
            'Multipolygon': ('Multipolygon', [
                (tri, []), ([ring[0], ring[3], other], [])])}[kind]


def rewritten(g):
    """another representation of the same geometry"""
    k = g[0]
    if k == 'Segment':
        return (k, g[2], g[1])
    if k == 'Contour':
        return (k, g[1][1::-1] + g[1][:1:-1])
    if k == 'Multisegment':
        return (k, [tuple(s)[::-1] for s in g[1][::-1]])
    if k == 'Polygon':          # relate_to wants counterclockwise borders
        return (k, g[1][1:] + g[1][:1], g[2][::-1])
    if k == 'Multipolygon':
        return (k, [rewritten(('Polygon', b, h))[1:] for b, h in g[1][::-1]])
    return g


def everything(sh, a, b, ga, gb):
    """-> {construct: {world: outcome}} of every operation of two operands"""
    out = {}

    def note(name, pv, how=None):
        X = Decoder(sh.D, sh.I)
        got = {}
        if pv.cov():
            got = {i: norm(v) if how == 'norm' else v
                   for i, v in X.value(pv, pv.cov()).items()}
        for i, names in raised(sh).items():
            got[i] = ('raises', tuple(sorted(names)))
        out[name] = got
    ka, kb = ga[0], gb[0]
    for op in '&|-^':
        note(f'{ka} {op} {kb}', sh.binary(op, a, b), 'norm')
    note(f'{ka}.relate_to({kb})', sh.call(a, 'relate_to', b))
    t, f = sh.I.eq_pv(a, b, sh.D.full, None)
    out[f'{ka} == {kb}'] = {i: bool(t >> i & 1) for i in bits(t | f)}
    out[f'hash({ka})'] = digest(sh, a)
    p = sh.B.point(*(gb[1] if kb == 'Segment' else ('b.x0', 'b.y0')))
    note(f'{ka}.locate', sh.call(a, 'locate', p))
    note(f'point in {ka}', sh.call(a, '__contains__', p))
    if ka in ('Contour', 'Multisegment'):
        note(f'{ka}.is_valid', sh.call(a, 'is_valid'))
    if ka in ('Polygon', 'Multisegment') and ga is not gb:
        note(f'Trapezoidation of {ka}', tile(sh, a, ka, p))
    if ka == 'Polygon':
        t = from_(sh, 'ConstrainedDelaunayTriangulation', 'from_polygon', a)
        for attr in ('triangles', 'border'):
            note(f'triangulation of {ka}: {attr}', sh.I.getattr_pv(
                t, attr, sh.D.full, None))
    return out


def tile(sh, a, ka, p):
    t = from_(sh, 'Trapezoidation', f'from_{ka.lower()}', a,
              seeder=seeded(sh, 2))
    return sh.call(t, 'locate', p)


def purity_job(sh, ka, kinds, what):
    A = SHAPES[SQUARE].at('a')[1]
    B = SHAPES[SQUARE].at('b')[1]
    oa, ob = ('c.x0', 'c.y0'), ('c.x1', 'c.y1')
    ga = of_ring(ka, A, oa)
    ra = rewritten(ga)
    for kb in kinds:
        gb = of_ring(kb, B, ob)
        a, b = sh.B.make(ga), sh.B.make(gb)
        intact(sh, a, ga, 'construction', what)
        first = everything(sh, a, b, ga, gb)
        intact(sh, a, ga, f'operations with {kb}', what)
        intact(sh, b, gb, f'operations with {ka}', what)
        # the same geometry represented in another way, in the wake of it
        c = sh.B.make(ra)
        intact(sh, c, ra, f'operations with an equal {ka}', what)
        other = everything(sh, c, b, ra, gb)
        intact(sh, c, ra, f'operations with {kb}', what)
        intact(sh, a, ga, f'operations with an equal {ka}', what)
        again = everything(sh, a, b, ga, gb)
        for name in first:
            free = 'triangulation' in name
            for i in bits(sh.D.full):
                v = first[name].get(i)
                w = again[name].get(i)
                sh.R.check('repeatable', v == w, name,
                           lambda: f'{what}: {name} of {show(sh, i, ga, gb)}'
                           f' gives {v}, later {w}')
                if not free:
                    u = other[name].get(i)
                    sh.R.check('representation', u == v, name,
                               lambda: f'{what}: {name} of '
                               f'{show(sh, i, ga, gb)} gives {v}, of '
                               f'{show(sh, i, ra, gb)} {u}')


def fresh_job(sh, what):
    """geometries keep a copy of the lists they are given, and what they
    hand out does not reach back into them"""
    full = sh.D.full
    ring = [('a.x0', 'a.y0'), ('a.x1', 'a.y0'), ('a.x1', 'a.y1')]
    far = ('a.x2', 'a.y2')

    def lst(items):
        return sh.B.seq(items)

    def spoil(pv, junk):
        for x, w in pv.items():
            sh.I.call_method(x, 'append', [junk.at(w)], w)
            sh.I.call_method(x, 'reverse', [], w)
            sh.I.call_method(x, 'pop', [], w)
        left = raised(sh)
        if left:
            raise Undecided(f'spoiling a list raises {left}')
    pts = [sh.B.point(*p) for p in ring]
    junk = sh.B.point(*far)
    given = lst(pts)
    c = sh.B.call('Contour', given)
    spoil(given, junk)
    g = ('Contour', ring)
    intact(sh, c, g, 'the list of vertices changes', what)
    segs = [sh.B.call('Segment', pts[i], pts[i - 1]) for i in range(3)]
    given = lst(segs)
    m = sh.B.call('Multisegment', given)
    spoil(given, segs[0])
    intact(sh, m, ('Multisegment', [(ring[i], ring[i - 1])
                                    for i in range(3)]),
           'the list of segments changes', what)
    d = sh.B.make(('Contour', [far, ring[0], ring[1]]))
    given = lst([d])
    p = sh.B.call('Polygon', c, given)
    spoil(given, c)
    gp = (ring, [[far, ring[0], ring[1]]])
    intact(sh, p, ('Polygon',) + gp, 'the list of holes changes', what)
    q = sh.B.make(('Polygon', ring, []))
    given = lst([p, q])
    mp = sh.B.call('Multipolygon', given)
    spoil(given, q)
    intact(sh, mp, ('Multipolygon', [gp, (ring, [])]),
           'the list of polygons changes', what)
    given = lst(pts)
    t = from_(sh, 'DelaunayTriangulation', 'from_points', given)
    X = Decoder(sh.D, sh.I)
    held = X.value(given, full)
    for i in bits(full):
        w = [tuple(sh.D.reps[i][s] for s in v) for v in ring]
        sh.R.check('operand', held[i] == w,
                   'DelaunayTriangulation.from_points',
                   lambda: f'{what}: the list of points {w} becomes '
                   f'{held[i]}')
    u = from_(sh, 'ConstrainedDelaunayTriangulation', 'from_polygon', q)
    for name, x in (('DelaunayTriangulation', t),
                    ('ConstrainedDelaunayTriangulation', u)):
        v = sh.I.getattr_pv(x, 'triangles', full, None)
        first = Decoder(sh.D, sh.I).value(v, full)
        spoil_result(sh, v)
        w = Decoder(sh.D, sh.I).value(sh.I.getattr_pv(
            x, 'triangles', full, None), full)
        for i in bits(full):
            sh.R.check('operand', w[i] == first[i], f'{name}.triangles',
                       lambda: f'{what}: triangles {first[i]} become '
                       f'{w[i]} once the result is emptied')
        sh.escaped('no-exception', name, lambda i: str(ring))


def spoil_result(sh, pv):
    for x, w in pv.items():
        if isinstance(x, Seq) and x.kind == 'list':
            sh.I.call_method(x, 'clear', [], w)


def purity(rep):
    jobs = []
    reps = classes(SQUARE, SQUARE, limit=deep(rep, 6), seed=rep.seed)
    more = random.Random(rep.seed)
    for r in reps:
        # one more point on each side, left of the boxes
        for j in (0, 1):
            r[f'c.x{j}'] = -1
            r[f'c.y{j}'] = more.choice((-2, 8, 1))
    kinds = tuple(ACCESSORS)
    for ka in kinds:
        for kb in kinds:
            jobs.append((purity_job, reps, (ka, (kb,), f'{ka}, {kb}')))
    pts = free_points(3, 12, rep.seed, lambda q: q[0][0] != q[1][0]
                      and q[0][1] != q[1][1], 4, 'fresh')
    jobs += jobs_of(fresh_job, pts, ('lists',), 12)
    rep.note(f'{len(reps)} order types of two boxes, each kind of geometry '
             'with each')
    finish(rep, jobs, {
        'operand': 'everything readable from an operand is what it was '
        'built from, before and after any operation',
        'repeatable': 'the outcome of an operation is the same when asked '
        'again, after other operations',
        'representation': 'the outcome does not depend on how an operand is '
        'represented'},
        {'operand': 36 * len(reps), 'repeatable': 200 * len(reps),
         'representation': 200 * len(reps)})


# ------------------------------------------------------------ enumerations
CONVERSE = {'COMPONENT': 'COMPOSITE', 'COVER': 'WITHIN',
            'ENCLOSED': 'ENCLOSES', 'CROSS': 'CROSS',
            'DISJOINT': 'DISJOINT', 'EQUAL': 'EQUAL', 'OVERLAP': 'OVERLAP',
            'TOUCH': 'TOUCH'}
CONVERSE.update({v: k for k, v in CONVERSE.items()})
VALUES = {'Location': {'BOUNDARY': 0, 'EXTERIOR': -1, 'INTERIOR': 1},
          'Orientation': {'CLOCKWISE': -1, 'COLLINEAR': 0,
                          'COUNTERCLOCKWISE': 1},
          'Relation': {n: i for i, n in enumerate(sorted(CONVERSE), 1)}}


def enums_job(sh, what):
    full = sh.D.full
    for name, values in VALUES.items():
        c = sh.I.get(f'rene.enums:{name}')
        sh.R.check('members', set(c.members) == set(values), name,
                   lambda: f'{name} has {sorted(c.members)}')
        for n, m in c.members.items():
            v = sh.X.value(sh.I.getattr_pv(PV.of(m, full), 'value', full,
                                           None), full)[0]
            sh.R.check('values', v == values.get(n), f'{name}.{n}',
                       lambda: f'{name}.{n} is {v}')
            for how in 'rs':
                r = sh.I.to_str(m, how, full, None)
                got = [a.v for a in r.d if isinstance(a, K)]
                sh.R.check('shown', got == [f'{name}.{n}'],
                           f'{name}.__{"repr" if how == "r" else "str"}__',
                           lambda: f'{name}.{n} is shown as {got}')
        for n, m in c.members.items():
            for k, o in c.members.items():
                t, f = sh.I.eq_pv(PV.of(m, full), PV.of(o, full), full, None)
                sh.R.check('distinct', (t == full) == (n == k), name,
                           lambda: f'{name}.{n} == {name}.{k} is {bool(t)}')
    c = sh.I.get('rene.enums:Relation')
    for n, m in c.members.items():
        r = sh.I.getattr_pv(PV.of(m, full), 'complement', full, None)
        left = raised(sh)
        v = sh.X.value(r, full).get(0) if r.cov() else left
        sh.R.check('converse', v == CONVERSE.get(n), 'Relation.complement',
                   lambda: f'the complement of {n} is {v} instead of '
                   f'{CONVERSE.get(n)}')
        r = sh.I.getattr_pv(r, 'complement', r.cov(), None)
        v = sh.X.value(r, full).get(0) if r.cov() else raised(sh)
        sh.R.check('involution', v == n, 'Relation.complement',
                   lambda: f'the complement of the complement of {n} is {v}')


def enums(rep):
    finish(rep, [(enums_job, [{}], ('',))], {
        'members': 'the members are those documented',
        'values': 'each member has the documented value',
        'shown': 'repr() and str() name the member',
        'distinct': 'members are distinct and equal to themselves',
        'converse': 'complement names the relation of the operands swapped',
        'involution': 'complement undoes itself'},
        {'members': 3, 'values': 17, 'shown': 34, 'converse': 11,
         'distinct': 139, 'involution': 11})
