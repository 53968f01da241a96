"""Findings, coverage bookkeeping, known-findings filter, evidence writing."""
import fnmatch
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.findings = []       # dict(rule, construct, msg, where)
        self.obl = 0             # obligations generated
        self.ok = 0              # discharged
        self.undecided = []      # (construct, why)
        self.units = []          # constructs analysed (functions, classes, call sites)
        self.samples = []
        self.extra = {}
        self.rules = {}
        self.broken = []

    def unit(self, name):
        if name not in self.units:
            self.units.append(name)

    def discharged(self, rule, construct, sample=None):
        self.obl += 1
        self.ok += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if sample and len(self.samples) < 12:
            self.samples.append('%s: %s -- %s' % (rule, construct, sample))

    def violation(self, rule, construct, msg, where=''):
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        f = dict(rule=rule, construct=construct, msg=msg, where=str(where))
        if not any(x['rule'] == rule and x['construct'] == construct and x['msg'] == msg for x in self.findings):
            self.findings.append(f)

    def undec(self, rule, construct, why):
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        t = '%s: %s -- %s' % (rule, construct, why)
        if t not in self.undecided:
            self.undecided.append(t)

    def require(self, what, have, least):
        """positive control: the rule must have found at least `least` instances"""
        self.extra.setdefault('instance_counts', {})[what] = have
        if have < least:
            self.broken.append('%s: found %d, expected at least %d' % (what, have, least))


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def finish(rep, tier, seed, t0, level, explanation, tool_broken=None):
    known = [k for k in load_known() if k['property'] == rep.prop and k.get('status', 'known') == 'known']
    new, old = [], []
    for f in rep.findings:
        k = next((k for k in known if k['rule'] == f['rule'] and fnmatch.fnmatchcase(f['construct'], k['construct']) and
                  (not k.get('match') or k['match'] in f['msg'])), None)
        (old if k else new).append(f)
    for f in old:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (rep.prop, f['construct'], f['rule'], f['msg']))
    viol = []
    rdir = os.path.join(VERIF, 'evidence')
    if not os.path.isdir(rdir):
        os.makedirs(rdir)
    for i, f in enumerate(new):
        rp = os.path.join(rdir, 'replay_%s_%d.json' % (rep.prop, i))
        with open(rp, 'w') as fh:
            json.dump(dict(property=rep.prop, **f), fh, indent=1)
        print('  %s  [%s] %s: %s' % (f['where'], f['rule'], f['construct'], f['msg']))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        viol.append(dict(rule=f['rule'], construct=f['construct'], message=f['msg'], where=f['where'], replay=rp))
    cov = dict(explanation=explanation, rules=rep.rules, obligations=rep.obl, discharged=rep.ok,
               undecided=len(rep.undecided), undecided_list=rep.undecided[:60], constructs=len(rep.units),
               constructs_list=rep.units[:400], samples=rep.samples or ['(none)'], known_findings=len(old))
    cov.update(rep.extra)
    ev = dict(property=rep.prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 3),
              violations=len(viol))
    ev['coverage']['violation_list'] = viol
    with open(os.path.join(rdir, '%s.json' % rep.prop), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s: %d constructs, %d obligations, %d discharged, %d undecided, %d new violation(s), %d known' % (
        rep.prop, len(rep.units), rep.obl, rep.ok, len(rep.undecided), len(new), len(old)))
    if new:
        return 1
    if rep.broken:
        for b in rep.broken:
            print('NO-VERDICT %s: %s' % (rep.prop, b))
        return 2
    return 0
