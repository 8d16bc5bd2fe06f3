#!/usr/bin/env python3
"""Every removed line of every seeded patch must come from the original commit."""
import glob, re, subprocess
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f, bad, removed = None, [], 0
    for l in open(p):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            bl = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            removed += 1
            if bl[n - 1].split()[0].lstrip('^')[:39] != base[:39]:
                bad.append(n)
            n += 1
        elif l.startswith(' '):
            n += 1
    print(p.split('/')[3], 'removed', removed, 'BAD %s' % bad if bad else '', '' if removed else 'ONLY ADDS')
