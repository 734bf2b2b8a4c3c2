#!/usr/bin/env python3
"""Tells which planted bugs change only lines that are not the original repository's."""
import glob, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h'], text=True).split()[0]
for d in sorted(glob.glob(V + '/seeded/*/patch.diff')):
    f, bad, good = None, 0, 0
    for l in open(d, newline=''):
        if l.startswith('--- a/'):
            f = l[6:].strip(); o = set(subprocess.run(['git', '-C', '/repo', 'show', root + ':' + f], capture_output=True).stdout.decode('utf8', 'replace').replace('\r', '').split('\n'))
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:].rstrip('\r\n') in o: good += 1
            else: bad += 1
    if not good and bad: print(os.path.basename(os.path.dirname(d)), 'changes no original line')
