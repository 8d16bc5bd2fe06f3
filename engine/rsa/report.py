"""Verdicts, evidence files and command line of the checks."""
import json
import os
import sys
import time
import traceback

from . import program

VERIF = program.VERIF


EXPL = ('Static analysis of the current source tree; no code of the repository is executed. Each obligation is one '
        'rule instance; "discharged" ones hold on every abstract path, "undecided" ones met code the analysis could '
        'not interpret precisely and raise no alarm.')


class Finding(object):
    def __init__(self, key, msg, file='', line=0, where='', trace=()):
        self.key = key          # stable identity: what fails where (no line numbers)
        self.msg = msg
        self.file = file
        self.line = line
        self.where = where
        self.trace = list(trace)

    def text(self):
        return '%s: %s [%s] at %s:%s in %s' % (self.key, self.msg, 'rule', self.file, self.line, self.where)


class Report(object):
    """Collects the obligations of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.obl = {}           # key -> 'ok' | 'violated' | 'undecided'
        self.findings = {}
        self.notes = []
        self.analysed = set()
        self.rules = []
        self.counts = {}

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, key):
        self.obl.setdefault(key, 'ok')

    def undecided(self, key, why=''):
        if self.obl.get(key) != 'violated':
            self.obl[key] = 'undecided'
        if len(self.notes) < 200:
            n = 'undecided %s: %s' % (key, why)
            if n not in self.notes:
                self.notes.append(n)

    def violated(self, key, msg, file='', line=0, where='', trace=()):
        self.obl[key] = 'violated'
        if key not in self.findings:
            self.findings[key] = Finding(key, msg, file, line, where, trace)

    def note(self, s):
        if s not in self.notes and len(self.notes) < 200:
            self.notes.append(s)

    def floor(self, what, n, least):
        """instance-count floor: a rule that matched nothing decides nothing"""
        self.counts[what] = n
        if n < least:
            raise program.AnchorError('%s: only %d instance(s) found, expected at least %d' % (what, n, least))


def known(pid):
    """known findings: {key: text}"""
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.rstrip('\n')
                if l.startswith('finding: property=%s key=' % pid):
                    rest = l.split('key=', 1)[1]
                    key, _, text = rest.partition(' :: ')
                    out[key.strip()] = text.strip()
    return out


def main(pid, title, rulefn, tier, seed, technique='', level='other'):
    t0 = time.time()
    rep = Report(pid)
    status = 0
    err = None
    try:
        rulefn(rep, tier)
    except program.AnchorError as e:
        err = 'analysis broken: %s' % e
        status = 2
    except Exception:
        err = traceback.format_exc()[-1500:]
        status = 2
    kn = known(pid)
    new = [f for k, f in sorted(rep.findings.items()) if k not in kn]
    old = [f for k, f in sorted(rep.findings.items()) if k in kn]
    ev = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': level,
        'technique': technique,
        'rules': rep.rules,
        'coverage': {
            'explanation': EXPL,
            'obligations': len(rep.obl),
            'discharged': sum(1 for v in rep.obl.values() if v == 'ok'),
            'violated': sum(1 for v in rep.obl.values() if v == 'violated'),
            'undecided': sum(1 for v in rep.obl.values() if v == 'undecided'),
            'counts': rep.counts,
            'functions_analysed': len(rep.analysed),
        },
        'functions': sorted(rep.analysed)[:300],
        'obligation_list': [('%s %s' % (v, k))[:220] for k, v in sorted(rep.obl.items())][:250],
        'notes': [n[:300] for n in rep.notes[:60]],
        'known_findings': [f.key for f in old],
        'violations': [{'key': f.key, 'msg': f.msg, 'file': f.file, 'line': f.line, 'where': f.where,
                        'path': f.trace[:60]} for f in new][:20],
        'wall_s': round(time.time() - t0, 2),
    }
    if err:
        ev['error'] = err[:4000]
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d obligations, %d discharged, %d undecided, %d violated, %d functions, %.1f s' % (
        pid, tier, len(rep.obl), ev['coverage']['discharged'], ev['coverage']['undecided'],
        len(rep.findings), len(rep.analysed), ev['wall_s']))
    for n in rep.notes[:15]:
        print('  note:', n[:240])
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[f.key]))
    if new:
        rp = os.path.join(d, pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for f in new:
                fh.write('%s\n  %s:%s in %s\n  %s\n' % (f.key, f.file, f.line, f.where, f.msg))
                for t in f.trace:
                    fh.write('    %s\n' % (t,))
        for f in new:
            print('  %s:%s: in %s: %s [%s]' % (f.file, f.line, f.where, f.msg, f.key))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        print(err, file=sys.stderr)
    return status
