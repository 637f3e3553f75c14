"""Result collection, evidence and exit protocol shared by every check."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

from .absint import Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Broken(Exception):
    """an anchor vanished or an instance floor was missed"""


def known_findings():
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                # known: property=<id> key=<rule|construct> <text>
                parts = line[len('known: '):].split(' ', 2)
                prop = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1]
                out.append((prop, key, parts[2] if len(parts) > 2 else ''))
    return out


def declared_level(prop):
    try:
        with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == prop:
                    return c['level']
    except (OSError, ValueError, KeyError):
        pass
    return 'other'


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.violations = []
        self.obligations = 0
        self.discharged = 0
        self.counters = {}
        self.rules = {}
        self.functions = set()
        self.notes = []
        self.assumptions = []
        self.imprecise = 0
        self.level = declared_level(prop)
        self.explanation = ''
        self.trusted = []
        self.samples = []
        self.t0 = time.time()

    # rules -------------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, n=1):
        self.obligations += n
        self.discharged += n
        self.counters[rule] = self.counters.get(rule, 0) + n

    def violation(self, rule, construct, message):
        self.obligations += 1
        self.counters[rule] = self.counters.get(rule, 0) + 1
        for v in self.violations:
            if v['rule'] == rule and v['construct'] == construct:
                v['more'] = v.get('more', 0) + 1
                return
        self.violations.append({'rule': rule, 'construct': construct,
                                'message': message})

    def check(self, rule, cond, construct, message):
        if cond:
            self.ok(rule)
        else:
            self.violation(rule, construct,
                           message() if callable(message) else message)
        return bool(cond)

    def floor(self, rule, n):
        got = self.counters.get(rule, 0)
        if got < n and not self.split()[0]:
            raise Broken(f'rule {rule}: {got} instances, expected at least '
                         f'{n}')

    def split(self):
        """violations not listed / listed as known findings"""
        known = {k for p, k, t in known_findings() if p == self.prop}
        real, listed = [], []
        for v in self.violations:
            key = f"{v['rule']}|{v['construct']}".replace(' ', '_')
            (listed if key in known else real).append((key, v))
        return real, listed

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def absorb(self, I):
        """record what an interpreter run covered"""
        for k in I.functions:
            if k.startswith('rene'):
                self.functions.add(k)
        self.imprecise += getattr(I, 'imprecise', 0)

    # output ------------------------------------------------------------
    def finish(self):
        real, listed = self.split()
        cov = {
            'obligations': self.obligations,
            'rules': self.rules,
            'instances': self.counters,
            'functions_analysed': sorted(self.functions),
            'signs_taken_at_witnesses': self.imprecise,
            'notes': self.notes,
            'explanation': self.explanation or (
                'Decided from the sources of rene: '
                + '; '.join(f'{k}: {v}' for k, v in self.rules.items())),
            'trusted_base': self.trusted or [
                'CPython ast parser', 'sa/ analyser in /verif'],
        }
        if self.level == 'proof':
            cov['discharged'] = self.discharged
            cov['checker_cmd'] = f'python3 check.py {self.prop}'
        ev = {
            'property': self.prop,
            'tier': self.tier if self.tier in ('quick', 'thorough')
            else 'quick',
            'seed': self.seed,
            'level': self.level,
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(real),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print(f'{self.prop}: {self.obligations} obligations, '
              f'{self.discharged} discharged, {len(self.functions)} '
              f'functions, {ev["wall_s"]} s')
        for k, n in sorted(self.counters.items()):
            print(f'  rule {k}: {n} instances')
        for n in self.notes:
            print('  note:', n)
        for key, v in listed:
            print(f"KNOWN-FINDING: property={self.prop} {v['construct']}: "
                  f"{v['message']}")
        if real:
            path = os.path.join(VERIF, 'evidence', self.prop
                                + '.violation.json')
            with open(path, 'w') as f:
                json.dump([v for _, v in real], f, indent=1, default=str)
            for _, v in real:
                print(f"  [{v['rule']}] {v['construct']}: {v['message']}"
                      + (f" (+{v['more']} more)" if 'more' in v else ''))
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        return 0


def run(prop, fn):
    rep = Report(prop)
    try:
        fn(rep)
    except (Undecided, Broken) as e:
        if rep.violations:
            rep.note(f'analysis stopped early: {e}')
            return rep.finish()
        rep.finish()
        print(f'ANALYSIS-ERROR property={prop}: {e}')
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
        return 2
    except SyntaxError as e:
        print(f'ANALYSIS-ERROR property={prop}: {e}')
        return 2
    except RecursionError as e:
        print(f'ANALYSIS-ERROR property={prop}: {e}')
        return 2
    return rep.finish()
