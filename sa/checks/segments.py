"""Pairs of segments: every order type of the four endpoints."""
from __future__ import annotations

import os

from .. import geom
from ..families import ground, run_jobs
from .setops import TRUSTED, operate, relate, show

GA = ('Segment', ('a.x0', 'a.y0'), ('a.x1', 'a.y1'))
GB = ('Segment', ('b.x0', 'b.y0'), ('b.x1', 'b.y1'))
PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__)))), 'data', 'segments4.txt')


def witnesses():
    out = []
    for line in open(PATH):
        v = [int(c) for c in line.strip()]
        out.append({'a.x0': v[0], 'a.y0': v[1], 'a.x1': v[2], 'a.y1': v[3],
                    'b.x0': v[4], 'b.y0': v[5], 'b.x1': v[6], 'b.y1': v[7]})
    return out


def run(rep, fn, args, rules, per):
    reps = witnesses()
    rep.note(f'{len(reps)} order types of the four endpoints')
    step = 388
    for k, t in rules.items():
        rep.rule(k, t)
    rep.rule('no-exception', 'no class lets an exception escape')
    run_jobs(rep, [(fn, reps[i:i + step], args)
                   for i in range(0, len(reps), step)])
    for k, n in per.items():
        rep.floor(k, n * len(reps))
    rep.trusted = TRUSTED


def ops(rep):
    run(rep, operate, (GA, GB, '&|-^', 'segments'),
        {'set-operation': 'the operator, interpreted over all order types of '
         'the endpoints, yields the point-set operation'},
        {'set-operation': 4})


def rels(rep):
    run(rep, relate, (GA, GB, 'segments'),
        {'relation': 'relate_to answers the relation of the point sets',
         'relation-symmetry': 'relate_to answers the complement when '
         'swapped'}, {'relation': 2})
