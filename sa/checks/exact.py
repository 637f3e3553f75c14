"""Exactness: what the library answers depends on relative positions alone."""
from __future__ import annotations

import random

from .. import families
from ..registry import CHECKS
from .basics import NO_EXC, TRUSTED, deep

SAMPLED = ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10',
           'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C19', 'C20',
           'C21', 'C22')


class Sampler:
    """report of a check whose jobs are only collected"""
    tier = 'quick'
    classes = 0

    def __init__(self, rep):
        self.seed = rep.seed

    def __getattr__(self, name):
        return lambda *a, **k: None


def collected(rep, prop):
    import importlib
    module, name = CHECKS[prop]
    fn = getattr(importlib.import_module('sa.checks.' + module), name)
    families.COLLECT = []
    try:
        fn(Sampler(rep))
        return families.COLLECT
    finally:
        families.COLLECT = None


def similar_job(sh, fn, args):
    """run a job for the questions it asks, not for their answers"""
    try:
        fn(sh, *args)
    finally:
        sh.R.bad.clear()
        sh.R.counts.clear()


def invariance(rep):
    rng = random.Random(rep.seed)
    jobs = []
    per = deep(rep, 5, 4)
    total = {}
    for prop in SAMPLED:
        kinds = {}
        for fn, reps, args in collected(rep, prop):
            kinds.setdefault((fn.__name__, repr(args)), (fn, args, []))[
                2].extend(reps)
        names = sorted(kinds)
        if rep.tier != 'thorough':
            names = rng.sample(names, min(len(names), 8))
        for key in names:
            fn, args, reps = kinds[key]
            some = rng.sample(reps, min(len(reps), per))
            total[prop] = total.get(prop, 0) + len(some)
            jobs.append((similar_job, some, (fn, args)))
    rep.rule('no-exception', NO_EXC)
    rep.note('classes sampled: ' + ', '.join(
        f'{k} {v}' for k, v in total.items()))
    families.run_jobs(rep, jobs)
    rep.floor('lossless', len(jobs))
    rep.floor('relative', 20 * len(jobs))
    rep.trusted = TRUSTED
