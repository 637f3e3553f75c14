"""C01: axis-parallel boxes: every predicate against its definition on every
order type of the eight coordinates."""
from __future__ import annotations

from ..absint import PV
from ..report import REPO
from ..worlds import OrderDomain, scalar, weak_orders

PREDICATES = ['covers', 'disjoint_with', 'enclosed_by', 'encloses',
              'equals_to', 'overlaps', 'touches', 'within']
OF_RELATION = {'covers': 'COVER', 'disjoint_with': 'DISJOINT',
               'enclosed_by': 'ENCLOSED', 'encloses': 'ENCLOSES',
               'equals_to': 'EQUAL', 'overlaps': 'OVERLAP',
               'touches': 'TOUCH', 'within': 'WITHIN'}
# predicates whose definition is unambiguous when a box has no area
ON_ALL = {'covers', 'disjoint_with', 'enclosed_by', 'encloses', 'equals_to',
          'within'}


def bits(m):
    while m:
        b = m & -m
        yield b.bit_length() - 1
        m ^= b


def relation(D, w):
    d = D.rank(w)
    ax0, ax1, ay0, ay1 = [d['a.' + c] for c in ('x0', 'x1', 'y0', 'y1')]
    bx0, bx1, by0, by1 = [d['b.' + c] for c in ('x0', 'x1', 'y0', 'y1')]
    if (ax0, ax1, ay0, ay1) == (bx0, bx1, by0, by1):
        return 'EQUAL'
    if ax1 < bx0 or bx1 < ax0 or ay1 < by0 or by1 < ay0:
        return 'DISJOINT'
    if bx0 < ax0 and ax1 < bx1 and by0 < ay0 and ay1 < by1:
        return 'WITHIN'
    if ax0 < bx0 and bx1 < ax1 and ay0 < by0 and by1 < ay1:
        return 'COVER'
    if bx0 <= ax0 and ax1 <= bx1 and by0 <= ay0 and ay1 <= by1:
        return 'ENCLOSED'
    if ax0 <= bx0 and bx1 <= ax1 and ay0 <= by0 and by1 <= ay1:
        return 'ENCLOSES'
    if max(ax0, bx0) == min(ax1, bx1) or max(ay0, by0) == min(ay1, by1):
        return 'TOUCH'
    return 'OVERLAP'


def domain():
    wo = [r for r in weak_orders(4) if r[0] <= r[1] and r[2] <= r[3]]
    return OrderDomain([(['a.x0', 'a.x1', 'b.x0', 'b.x1'], wo),
                        (['a.y0', 'a.y1', 'b.y0', 'b.y1'], wo)])


def make(I, D, p):
    Box = I.get('rene._exact:Box')
    return I.call_atom(Box, [scalar(f'{p}.{c}', D.full)
                             for c in ('x0', 'x1', 'y0', 'y1')], {}, D.full)


def check(rep):
    rep.rule('predicate-definition',
             'each predicate, abstractly interpreted over all order types of '
             'two boxes (26 x 26 classes), answers as its definition')
    rep.rule('relation-definition',
             'relate_to, interpreted the same way, answers the relation of '
             'the two rectangles; complements agree when swapped')
    rep.rule('no-exception', 'no class lets an exception escape')
    rep.rule('validity', 'is_valid holds exactly for ordered bounds')
    D = domain()
    I = D.interp(REPO)
    a, b = make(I, D, 'a'), make(I, D, 'b')
    ao, bo = a.only(), b.only()
    solid = D.mask(lambda w: all(
        D.rank(w)[f'{p}.{c}0'] < D.rank(w)[f'{p}.{c}1']
        for p in 'ab' for c in 'xy'))
    spec = [relation(D, w) for w in D.worlds]

    def escaped(name):
        left = I.handlers[0][:]
        I.handlers[0].clear()
        for exc, m, loc in left:
            for i in bits(m):
                rep.violation('no-exception', f'Box.{name}',
                              f'{exc!r} raised at {loc} for '
                              f'{D.describe(D.worlds[i])}')
                break
        return not left

    for name in PREDICATES:
        r = I.call_method(ao, name, [b], D.full)
        t, f = I.truth(r, r.cov())
        if escaped(name):
            rep.ok('no-exception')
        scope = D.full if name in ON_ALL else solid
        for i in bits(scope & (t | f)):
            want = spec[i] == OF_RELATION[name]
            rep.check('predicate-definition', want == bool(t >> i & 1),
                      f'Box.{name}',
                      lambda: f'answers {bool(t >> i & 1)} where the boxes '
                      f'are related by {spec[i]}: '
                      f'{D.describe(D.worlds[i])}')
    rels = {}
    for x, y, swapped in ((ao, b, False), (bo, a, True)):
        r = I.call_method(x, 'relate_to', [y], D.full)
        if escaped('relate_to'):
            rep.ok('no-exception')
        got = {}
        for k, m in r.items():
            for i in bits(m):
                got[i] = getattr(k, 'name', repr(k))
        rels[swapped] = got
    comp = {'COVER': 'WITHIN', 'WITHIN': 'COVER', 'ENCLOSES': 'ENCLOSED',
            'ENCLOSED': 'ENCLOSES'}
    for i, g in rels[False].items():
        s = spec[i]
        if solid >> i & 1 or s in ('EQUAL', 'DISJOINT', 'COVER', 'WITHIN'):
            rep.check('relation-definition', g == s, 'Box.relate_to',
                      lambda: f'answers {g} instead of {s}: '
                      f'{D.describe(D.worlds[i])}')
        o = rels[True].get(i)
        rep.check('relation-definition', o == comp.get(g, g),
                  'Box.relate_to',
                  lambda: f'answers {g} one way and {o} the other: '
                  f'{D.describe(D.worlds[i])}')
    # validity over all (also reversed) bounds
    wo = weak_orders(2)
    V = OrderDomain([(['a.x0', 'a.x1'], wo), (['a.y0', 'a.y1'], wo)])
    J = V.interp(REPO)
    box = make(J, V, 'a').only()
    r = J.call_method(box, 'is_valid', [], V.full)
    t, f = J.truth(r, r.cov())
    for i, w in enumerate(V.worlds):
        d = V.rank(w)
        rep.check('validity', bool(t >> i & 1) == (
            d['a.x0'] <= d['a.x1'] and d['a.y0'] <= d['a.y1']),
            'Box.is_valid', lambda: f'wrong for {V.describe(w)}')
    rep.absorb(I)
    rep.floor('predicate-definition', 8 * 169)
    rep.floor('relation-definition', 676)
    rep.trusted = ['CPython ast parser',
                   'sa/absint.py transfer functions for the Python subset '
                   'used', 'exact Fraction arithmetic of rithm']
