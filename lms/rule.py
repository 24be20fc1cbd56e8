"""What every rule shares: obligations, findings, known findings, evidence, exit codes."""
import json, os, sys, time, traceback
from . import facts
from .facts import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, 'known-findings.txt')
EVID = os.environ.get('LMS_EVIDENCE', os.path.join(VERIF, 'evidence'))


def known_findings():
    """lines: 'finding: property=<id> key=<key> :: text'   /  'fixed: property=<id> <commit> text'"""
    out = []
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                body = line[len('finding:'):].strip()
                pid = body.split()[0].split('=', 1)[1]
                key, _, text = body.split('key=', 1)[1].partition(' :: ')
                out.append((pid, key.strip(), text.strip()))
    except FileNotFoundError:
        pass
    return out


class Report:
    """obligations are (kind, construct) pairs; a construct is counted once, and is discharged unless it has a violation"""

    def __init__(self, pid, prog):
        self.pid = pid
        self.P = prog
        self.obl = {}           # (kind, key) -> where
        self.bad = {}           # key -> dict
        self.funcs = set()
        self.notes = []
        self.assume = []
        self.floors = []
        self.stats = {}

    def ob(self, kind, key, where=''):
        self.obl.setdefault((kind, key), where)

    def violate(self, kind, key, where, msg, path=None):
        k = '%s|%s' % (kind, key)
        self.obl.setdefault((kind, key), where)
        if k not in self.bad:
            self.bad[k] = {'key': k, 'where': where, 'message': msg, 'path': path or []}

    def check(self, ok, kind, key, where, msg, path=None):
        self.ob(kind, key, where)
        if not ok: self.violate(kind, key, where, msg, path)
        return ok

    def floor(self, what, n, least):
        """the rule must have found at least `least` instances, or it is blind and says so"""
        self.floors.append((what, n, least))
        if n < least and not self.bad:
            raise AnalysisBroken('%s: only %d instances found, %d expected at least: the rule no longer sees what it is about' % (what, n, least))

    def count(self, kind):
        return len([1 for k in self.obl if k[0] == kind])


def finish(rep, tier, t0, rule_text, level, assumptions, wall_extra=0):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = [(k, t) for p, k, t in known_findings() if p == rep.pid]
    kk = {k: t for k, t in known}
    new = [b for b in rep.bad.values() if b['key'] not in kk]
    old = [b for b in rep.bad.values() if b['key'] in kk]
    kinds = {}
    for (k, _), w in rep.obl.items(): kinds[k] = kinds.get(k, 0) + 1
    badkeys = set(rep.bad)
    n = len(rep.obl)
    d = len([1 for (k, key) in rep.obl if '%s|%s' % (k, key) not in badkeys])
    samples = ['%s: %s [%s]' % (k, key, w) for (k, key), w in sorted(rep.obl.items(), key=lambda x: repr(x[0]))]
    step = max(1, len(samples) // 12)
    cov = {
        'obligations': n, 'discharged': d,
        'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (rep.pid, tier),
        'trusted_base': ['clang 18 front end and CFG (libTooling)', '/verif/tool/lmsfacts.cpp', '/verif/lms (engine, domain, rule)'],
        'explanation': rule_text,
        'rule': rule_text,
        'obligations_by_kind': kinds,
        'functions_analysed': len(rep.funcs),
        'functions': sorted(rep.funcs)[:60],
        'samples': samples[::step][:14],
        'floors': [{'instances': a, 'found': b, 'at_least': c} for a, b, c in rep.floors],
        'known_findings_reported': [b['key'] for b in old],
        'stats': rep.stats,
    }
    if rep.notes: cov['notes'] = rep.notes
    ev = {'property': rep.pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions + rep.assume,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.%d' % (rep.pid, os.getpid()))
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, rep.pid + '.json'))
    for b in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (rep.pid, kk[b['key']] or b['message'], b['where']))
    for b in new:
        print('%s: %s' % (b['where'], b['message']))
        for p in b['path']: print('    ' + p)
        print('    key=%s' % b['key'])
        print('VIOLATION property=%s replay=%s' % (rep.pid, b['where'].split(' ')[0]))
    print('%s: %d obligations, %d discharged, %d functions, %d violations, %d known findings, %.1fs' % (
        rep.pid, n, d, len(rep.funcs), len(new), len(old), time.time() - t0))
    return 1 if new else 0
