#!/usr/bin/env python3
"""Development helper: does every planted bug change a line of the original repository (not one our commits added)?"""
import re, subprocess, sys, os, glob
R = '/repo'; BASE = '9ce8f89'
for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded/*/patch.diff'))):
    f = None; n = 0; res = []
    for l in open(p):
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-'):
            b = subprocess.run(['git', '-C', R, 'blame', '-s', '-L%d,%d' % (n, n), 'HEAD', '--', f], capture_output=True, text=True).stdout
            old = subprocess.run(['git', '-C', R, 'merge-base', '--is-ancestor', b.split()[0].lstrip('^'), BASE]).returncode == 0
            res.append('orig' if old else 'ours'); n += 1
        elif l.startswith('+'): pass
        else: n += 1
    print(p.split('/')[-2], res or 'only additions')
