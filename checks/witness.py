"""Compile-fail witnesses: programs that misuse the API must be rejected by the compiler, their legitimate twins
accepted.  witness/<file>.cc is a preamble followed by sections
    //# ok|bad|hold|must GROUP : title
A `bad` section counts only if every `ok` section of its group compiles (so the misuse, and nothing else, is what is
rejected).  Nothing is linked or run: clang -fsyntax-only decides."""
import concurrent.futures
import os
import re
import subprocess
from rsa import program

SEC = re.compile(r'^//# (ok|bad|hold|must) (\S+)\s*:\s*(.*)$')
ALWAYS = ['-Werror=unused-result', '-ferror-limit=5', '-Wno-everything', '-Wunused-result',
          '-Werror=unused-result']


def parse(path):
    pre, secs = [], []
    for i, l in enumerate(open(path)):
        m = SEC.match(l.rstrip('\n'))
        if m:
            secs.append((m.group(1), m.group(2), m.group(3), i + 1, []))
        elif secs:
            secs[-1][4].append(l)
        else:
            pre.append(l)
    return ''.join(pre), secs


def compile_one(path, pre, sec, extra):
    src = pre + '#line %d "%s"\n' % (sec[3] + 1, path) + ''.join(sec[4])
    r = subprocess.run(['clang++', '-x', 'c++', '-fsyntax-only'] + program.FLAGS[:5] + list(extra) + ALWAYS + ['-'],
                       input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def where(out, path):
    for l in out.split('\n'):
        m = re.match(r'(%s/[^:]+):(\d+):' % re.escape(program.REPO), l)
        if m:
            return m.group(1), int(m.group(2))
    return path, 0


def run(rep, name, only=None, extras=((), ('-DNDEBUG',))):
    path = os.path.join(program.VERIF, 'witness', name)
    pre, secs = parse(path)
    rep.rule('each misuse in witness/%s is rejected by the compiler, and its legitimate twin is accepted' % name)
    for extra in extras:
        tag = ' [ndebug]' if extra else ''
        rc, out = compile_one(path, pre, ('ok', '', '', 0, []), extra)
        if rc:
            raise program.AnchorError('witness/%s: the preamble does not compile: %s' % (name, out[:400]))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda s: compile_one(path, pre, s, extra), secs))
        broken = {}
        for s, (rc, out) in zip(secs, res):
            if s[0] == 'ok' and rc:
                broken[s[1]] = out
                rep.undecided('%s: legitimate use compiles: %s%s' % (s[1], s[2], tag), out[:300])
            elif s[0] == 'ok':
                rep.ok('%s: legitimate use compiles: %s%s' % (s[1], s[2], tag))
        groups = {s[1] for s in secs if s[0] == 'ok'}
        for s, (rc, out) in zip(secs, res):
            if s[0] == 'ok' or only and s[1] not in only:
                continue
            if s[0] in ('hold', 'must'):
                key = '%s: %s%s' % (s[1], s[2], tag)
                rep.count('witness_programs')
                if s[1] in broken:
                    rep.undecided(key, 'the legitimate twin does not compile')
                elif rc and s[0] == 'must':
                    rep.violated(key, 'a legitimate program does not compile: ' + s[2], path, s[3] + 1,
                                 'witness ' + s[1], out.split('\n')[:4])
                elif rc and 'static assertion failed' in out:
                    rep.violated(key, 'a static assertion about the library fails: ' + s[2], path, s[3] + 1,
                                 'witness ' + s[1], out.split('\n')[:4])
                elif rc:
                    rep.undecided(key, out[:300])
                else:
                    rep.ok(key)
                continue
            key = '%s: rejected: %s%s' % (s[1], s[2], tag)
            rep.count('witness_programs')
            if s[1] not in groups:
                raise program.AnchorError('witness group %s has no legitimate twin' % s[1])
            if s[1] in broken:
                rep.undecided(key, 'the legitimate twin does not compile')
            elif rc == 0:
                rep.violated(key, 'a program that must be rejected compiles: ' + s[2], path, s[3] + 1,
                             'witness ' + s[1])
            else:
                rep.ok(key)
    rep.floor('witness_sections', len(secs), 2)
