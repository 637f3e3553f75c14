"""Set operators and relations of compound geometries over families of
order types."""
from __future__ import annotations

from .. import geom
from ..families import ground, run_jobs
from ..shapes import FREE, SHAPES, classes, free_classes, free_shape

TRUSTED = ['CPython ast parser', 'sa/absint.py transfer functions for the '
           'Python subset used', 'sa/model: contracts of dendroid red_black '
           'and prioq PriorityQueue', 'sa/geom.py point-set definitions',
           'exact Fraction arithmetic of rithm']


def show(sh, i, *gs):
    rep = sh.D.reps[i]
    return '; '.join(str(ground(g, rep)) for g in gs)


def operate(sh, ga, gb, ops, what):
    a, b = sh.B.make(ga), sh.B.make(gb)
    for op in ops:
        name = f'{ga[0]} {op} {gb[0]}'
        r = sh.binary(op, a, b)
        sh.escaped('no-exception', name, lambda i: show(sh, i, ga, gb))
        for i, v in sh.X.value(r, r.cov()).items():
            rep = sh.D.reps[i]
            A, B = ground(ga, rep), ground(gb, rep)
            d = geom.operation_defect(op, A, B, v)
            sh.R.check('set-operation', d is None, name,
                       lambda: f'{what}: {A} {op} {B} gives {v}: {d}')


def relate(sh, ga, gb, what):
    a, b = sh.B.make(ga), sh.B.make(gb)
    got = []
    for x, y, gx, gy in ((a, b, ga, gb), (b, a, gb, ga)):
        name = f'{gx[0]}.relate_to({gy[0]})'
        r = sh.call(x, 'relate_to', y)
        sh.escaped('no-exception', name, lambda i: show(sh, i, gx, gy))
        got.append(sh.X.value(r, r.cov()))
        for i, v in got[-1].items():
            rep = sh.D.reps[i]
            A, B = ground(gx, rep), ground(gy, rep)
            w = geom.relation(A, B)
            sh.R.check('relation', v == w, name,
                       lambda: f'{what}: {A} relate_to {B} answers {v} '
                       f'instead of {w}')
    for i in got[0].keys() & got[1].keys():
        u, v = got[0][i], got[1][i]
        sh.R.check('relation-symmetry', v == geom.COMPLEMENT.get(u, u),
                   f'{ga[0]}/{gb[0]}',
                   lambda: f'{what}: answers {u} one way and {v} the other: '
                   f'{show(sh, i, ga, gb)}')


RULES = {
    'set-operation': 'the result of the operator, abstractly interpreted '
    'once per shard for all its order types, is the regularised point-set '
    'operation, in well-formed parts and of the smallest type',
    'relation': 'relate_to answers the relation of the point sets',
    'relation-symmetry': 'relate_to answers the complement when swapped',
    'no-exception': 'no class lets an exception escape',
}


def family(rep, fn, pairs, extra, chunk=60):
    """pairs: (shape a, shape b, quick limit or None, args)"""
    jobs = []
    thorough = rep.tier == 'thorough'
    for na, nb, limit, args in pairs:
        if na in FREE:
            reps = free_classes(na, nb, limit * (8 if thorough else 1),
                                rep.seed)
            ga, gb = free_shape(na, 'a'), free_shape(nb, 'b')
        else:
            reps = classes(na, nb, limit=None if thorough else limit,
                           seed=rep.seed)
            ga, gb = SHAPES[na].at('a'), SHAPES[nb].at('b')
        step = min(chunk, max(8, -(-len(reps) // 8)))
        rep.note(f'{na} x {nb}: {len(reps)} order types')
        rep.classes = getattr(rep, 'classes', 0) + len(reps)
        for i in range(0, len(reps), step):
            jobs.append((fn, reps[i:i + step],
                         (ga, gb) + args + (f'{na} x {nb}',)))
    for k in extra:
        rep.rule(k, RULES[k])
    rep.rule('no-exception', RULES['no-exception'])
    run_jobs(rep, jobs)
    rep.trusted = TRUSTED


def op_check(pairs, ops):
    def check(rep):
        family(rep, operate, [(a, b, n, (ops,)) for a, b, n in pairs],
               ['set-operation'])
        rep.floor('set-operation', rep.classes * len(ops))
    return check


def rel_check(pairs):
    def check(rep):
        family(rep, relate, [(a, b, n, ()) for a, b, n in pairs],
               ['relation', 'relation-symmetry'])
        rep.floor('relation', 2 * rep.classes)
        rep.floor('relation-symmetry', rep.classes)
    return check


SHAPED_OPS = [
    ('rect', 'rect', None), ('frame', 'rect', 60), ('ell', 'rect', 40),
    ('cup', 'ell', 24), ('bracket', 'rect', 40), ('rect', 'frame', 40),
    ('tri', 'tri', 40), ('quad', 'tri', 24), ('holed', 'tri', 16),
]
MULTI_OPS = [
    ('corner', 'rect', 60), ('side', 'rect', 50), ('rect', 'stack', 50),
    ('corner', 'side', 32), ('frame', 'corner', 32), ('stack', 'cup', 24),
    ('pair', 'tri', 16), ('tri', 'pair', 16),
]
SHAPED_RELS = [
    ('rect', 'rect', None), ('frame', 'rect', 200), ('ell', 'rect', 100),
    ('cup', 'rect', 100), ('bracket', 'ell', 80), ('cup', 'ell', 80),
    ('frame', 'frame', 64),
    ('tri', 'tri', 64), ('quad', 'tri', 64), ('holed', 'tri', 24),
]
MULTI_RELS = [
    ('corner', 'rect', 150), ('side', 'rect', 150), ('stack', 'rect', 150),
    ('corner', 'corner', 63), ('side', 'stack', 63), ('frame', 'corner', 63),
    ('cup', 'side', 63), ('pair', 'tri', 40), ('pair', 'quad', 32),
]
LINEAR_SHAPED_RELS = [
    ('hseg', 'rect', None), ('vseg', 'rect', None), ('hseg', 'cup', 120),
    ('vseg', 'bracket', 120), ('hseg', 'frame', 120), ('vseg', 'side', 80),
    ('hseg', 'corner', 80), ('box', 'rect', None), ('box', 'frame', 100),
    ('elbow', 'rect', 64), ('rows', 'cup', 100), ('cross', 'rect', 80),
    ('cols', 'stack', 64), ('box', 'corner', 64), ('hook', 'side', 64),
    ('elbow', 'ell', 64), ('rows', 'rect', 100),
    ('seg', 'quad', 80), ('seg', 'pent', 48), ('seg', 'holed', 48),
    ('seg', 'pair', 48), ('vee', 'quad', 48), ('tring', 'quad', 40),
    ('duo', 'pair', 32), ('tring', 'pair', 24),
]
LINEAR_SHAPED_MEETS = [
    ('hseg', 'rect', None), ('vseg', 'rect', None), ('hseg', 'frame', 80),
    ('vseg', 'side', 64), ('hseg', 'corner', 64), ('box', 'rect', 120),
    ('box', 'frame', 48), ('rows', 'cup', 48), ('cross', 'rect', 64),
    ('cols', 'stack', 48), ('elbow', 'corner', 40), ('hook', 'side', 40),
    ('seg', 'quad', 40), ('vee', 'quad', 32), ('tring', 'tri', 32),
    ('duo', 'pair', 24), ('seg', 'holed', 24),
]
LINEAR_SHAPED_MINUS = [
    (a, b, n) for a, b, n in LINEAR_SHAPED_MEETS
    if a not in ('hseg', 'vseg', 'seg')]
LINEAR_OPS = [
    ('hseg', 'box', None), ('vseg', 'elbow', 80), ('hseg', 'cross', 80),
    ('vseg', 'rows', 65), ('box', 'box', None), ('cross', 'cross', 48),
    ('elbow', 'box', 48), ('rows', 'cols', 100), ('rows', 'rows', 80),
    ('hook', 'elbow', 40), ('cross', 'box', 48),
    ('seg', 'tring', 48), ('seg', 'duo', 48), ('vee', 'tring', 32),
    ('tring', 'tring', 24), ('duo', 'vee', 32),
]
LINEAR_RELS = [
    ('hseg', 'box', None), ('vseg', 'elbow', 150), ('hseg', 'cross', 150),
    ('vseg', 'rows', None), ('hseg', 'rows', None), ('vseg', 'cross', 120),
    ('hseg', 'hook', None), ('vseg', 'box', None),
    ('box', 'box', None), ('cross', 'cross', 100),
    ('elbow', 'box', 100), ('rows', 'cols', None), ('rows', 'rows', None),
    ('hook', 'elbow', 64), ('cross', 'box', 100), ('hook', 'hook', None),
    ('seg', 'qring', 80), ('seg', 'duo', 80), ('vee', 'tring', 64),
    ('tring', 'qring', 48), ('duo', 'vee', 64), ('seg', 'vee', 80),
]

shaped_ops = op_check(SHAPED_OPS, '&|-^')
multi_ops = op_check(MULTI_OPS, '&|-^')
shaped_rels = rel_check(SHAPED_RELS)
multi_rels = rel_check(MULTI_RELS)
linear_shaped_rels = rel_check(LINEAR_SHAPED_RELS)
linear_rels = rel_check(LINEAR_RELS)


def operate_swapped(sh, ga, gb, ops, what):
    """both ways round"""
    operate(sh, ga, gb, ops, what)
    operate(sh, gb, ga, ops, what)


def linear_ops(rep):
    pairs = [(a, b, n, ('&|-^',)) for a, b, n in LINEAR_OPS]
    family(rep, operate_swapped, pairs, ['set-operation'])
    rep.floor('set-operation', rep.classes * 8)


def linear_shaped_meets(rep):
    """intersection both ways round, and what is left of a linear operand"""
    pairs = [(a, b, n, ('&',)) for a, b, n in LINEAR_SHAPED_MEETS]
    pairs += [(a, b, n, ('-',)) for a, b, n in LINEAR_SHAPED_MINUS]
    family(rep, operate_both, pairs, ['set-operation'])
    rep.floor('set-operation', rep.classes)


def operate_both(sh, ga, gb, ops, what):
    operate(sh, ga, gb, ops, what)
    if ops == '&':
        operate(sh, gb, ga, ops, what)
