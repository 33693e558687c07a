"""Collection of obligations and writing of verdict, evidence and replay files."""
import json
import os
import sys
import time

from build import VERIF

KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
EVID = os.path.join(VERIF, 'evidence')


class Report:
    def __init__(self, prop, explanation, assumptions=()):
        self.prop = prop
        self.explanation = explanation
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.done = {}          # group -> number of obligations discharged
        self.viol = {}          # key -> (what, where)
        self.und = []
        self.counts = {}
        self.samples = []
        self.fns = set()

    def ok(self, group, what=None, n=1):
        self.done[group] = self.done.get(group, 0) + n
        if what and len(self.samples) < 40 and not any(s.startswith(group + ':') for s in self.samples[-3:]):
            self.samples.append('%s: %s' % (group, what))

    def violate(self, group, key, what, where=None):
        """key identifies the construct and stays the same when unrelated lines move."""
        k = '%s@%s' % (group, key)
        if k not in self.viol:
            self.viol[k] = (what, where)

    def undecided(self, group, what):
        x = '%s: %s' % (group, what)
        if x not in self.und:
            self.und.append(x)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                w = l.split(None, 3)
                if len(w) >= 3 and w[0] == 'known:' and w[1] == 'property=' + self.prop and w[2].startswith('key='):
                    out[w[2][4:]] = w[3].strip() if len(w) > 3 else ''
        return out

    def finish(self):
        known = self.known()
        new = {k: v for k, v in self.viol.items() if k.replace(' ', '_') not in known}
        old = [k for k in self.viol if k.replace(' ', '_') in known]
        for k in old:
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, known[k.replace(' ', '_')], k))
        total = sum(self.done.values()) + len(self.viol) + len(self.und)
        os.makedirs(EVID, exist_ok=True)
        tier = os.environ.get('VERIF_TIER', 'quick')
        cov = {
            'explanation': self.explanation,
            'obligations': total,
            'discharged': sum(self.done.values()),
            'by_rule': self.done,
            'undecided': self.und,
            'known_findings': old,
            'functions_analysed': sorted(self.fns),
            'samples': self.samples,
        }
        cov.update(self.counts)
        ev = {
            'property': self.prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new),
        }
        tmp = os.path.join(EVID, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(EVID, self.prop + '.json'))
        if new:
            path = os.path.join(EVID, self.prop + '.violation.txt')
            with open(path, 'w') as f:
                for k, (what, where) in new.items():
                    f.write('%s\n    %s\n    at %s\n' % (k, what, where))
            for k, (what, where) in list(new.items())[:12]:
                print('%s: %s [%s]' % (k, what, where))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(path, VERIF)))
            return 1
        if not self.done and not self.viol:
            print('%s: nothing could be analysed: %s' % (self.prop, '; '.join(self.und[:5])))
            return 2
        print('%s: %d obligations discharged, %d undecided' % (self.prop, sum(self.done.values()), len(self.und)))
        for u in self.und[:8]:
            print('  undecided ' + u)
        return 0
