#!/usr/bin/env python3
"""seedblame.py: which removed lines of the planted bugs are ours rather than the original repository's."""
import glob, re, subprocess, os
BASE = '005949e'
ours = set(subprocess.run(['git', '-C', '/repo', 'rev-list', BASE + '..HEAD'], capture_output=True, text=True).stdout.split())
for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', '*', 'patch.diff'))):
    f, n, rem, bad = None, 0, 0, []
    for l in open(p, 'rb').read().decode('utf-8', 'replace').split('\n'):
        if l.startswith('--- '):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            rem += 1
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-L', '%d,%d' % (n, n), 'HEAD', '--', f], capture_output=True, text=True).stdout
            if b.split()[0].lstrip('^') in ours:
                bad.append(l)
            n += 1
        elif l.startswith(' ') and f:
            n += 1
    print(os.path.basename(os.path.dirname(p)), 'removed', rem, 'ours', len(bad), bad)
