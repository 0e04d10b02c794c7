"""Results, evidence and exit codes."""
import hashlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.violations = []
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.rule = ''
        self.extra = {}
        self.assumptions = []
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def violation(self, key, what, detail=None):
        if any(v['key'] == key for v in self.violations):
            return
        self.violations.append({'property': self.prop, 'key': key, 'what': what, 'detail': detail or {}})

    def observe(self, n=1, distinct=0):
        self.evaluations += n
        self.distinct += distinct

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def known_findings():
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                # known: property=<id> key=<key> <what fails>
                parts = line[len('known: '):].split(' ', 2)
                out.append((parts[0].split('=', 1)[1], parts[1].split('=', 1)[1], parts[2]))
    return out


def finish(r):
    """Writes evidence and replays; returns the exit code."""
    for prop, key, what in known_findings():
        if prop == r.prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    known = {k for p, k, _ in known_findings() if p == r.prop}
    viol = [v for v in r.violations if v['key'] not in known]
    if r.evaluations == 0 and not viol:
        print('ERROR: the monitors of %s observed nothing' % r.prop)
        return 2
    rd = os.path.join(ROOT, 'build', 'replays')
    os.makedirs(rd, exist_ok=True)
    for v in viol[:8]:
        h = hashlib.sha1((v['key'] + v['what']).encode()).hexdigest()[:10]
        path = os.path.join(rd, '%s-%s.json' % (r.prop, h))
        v['reproduce'] = 'VERIF_SEED=%d VERIF_TIER=%s python3 /verif/run.py check %s' % (r.seed, r.tier, r.prop)
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (r.prop, path))
        print('  ' + v['what'].replace('\n', '\n  ')[:1500])
    cov = {'evaluations': r.evaluations, 'distinct_nontrivial': r.distinct, 'rule': r.rule, 'samples': r.samples[:20]}
    cov.update(r.extra)
    ev = {'property': r.prop, 'tier': r.tier, 'seed': r.seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': r.assumptions, 'wall_s': round(time.time() - r.t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', r.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d observations, %d distinct, %d violations, %.1f s' % (r.prop, r.evaluations, r.distinct, len(viol), time.time() - r.t0))
    return 1 if viol else 0
