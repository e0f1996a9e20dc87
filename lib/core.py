"""Shared result type, evidence writing and known-finding handling."""
import json
import os
import time
import hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    """A violation.  `key` identifies the construct (no line numbers)."""

    def __init__(self, rule, where, line, msg, key):
        self.rule, self.where, self.line, self.msg = rule, where, line, msg
        self.key = f'{rule}|{where}|{key}'

    def __str__(self):
        return f'{self.where}:{self.line}: [{self.rule}] {self.msg}'


class Result:
    def __init__(self):
        self.findings = []
        self.rules = {}         # rule -> count of instances decided
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.coverage = {}

    def add(self, rule, where, line, msg, key):
        f = Finding(rule, where, line, msg, key)
        if all(f.key != g.key for g in self.findings):
            self.findings.append(f)

    def count(self, rule, n=1):
        self.rules[rule] = self.rules.get(rule, 0) + n

    def sample(self, s, cap=400):
        if len(self.samples) < cap:
            self.samples.append(s)


def known_findings():
    """known-findings.txt: `known: property=<id> key=<key> :: <what>`;
    lines starting with `fixed:` are a record only."""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                head, _, what = line[7:].partition(' :: ')
                prop, _, key = head.partition(' key=')
                out.setdefault(prop.split('=')[1], {})[key] = what
    return out


def finish(prop, tier, seed, res, t0, level_text):
    known = known_findings().get(prop, {})
    bad, listed = [], []
    for f in res.findings:
        (listed if f.key in known else bad).append(f)
    for f in listed:
        print(f'KNOWN-FINDING: property={prop} {known[f.key]}')
    n = sum(res.rules.values())
    cov = {
        'explanation': level_text,
        'instances_decided': n,
        'instances_by_rule': res.rules,
        'samples': res.samples[:40],
        'notes': res.notes,
        **res.coverage,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': cov, 'assumptions': res.assumptions,
          'wall_s': round(time.time() - t0, 3), 'violations': len(bad)}
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f'{prop}: {n} instances decided '
          + ', '.join(f'{k}={v}' for k, v in sorted(res.rules.items())))
    if bad:
        rep = os.path.join(evdir, f'{prop}.report.txt')
        with open(rep, 'w') as fh:
            for f in bad:
                fh.write(f'{f}\n    key: {f.key}\n')
        for f in bad[:20]:
            print(f'  {f}')
        print(f'VIOLATION property={prop} replay={rep}')
        return 1
    return 0
