#!/usr/bin/env python3
"""for each seed: the lines it removes which were added by our own commits in /repo"""
import subprocess, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sorted(os.listdir(V + '/seeded')):
    f = None; own, orig = [], 0
    for l in open('%s/seeded/%s/patch.diff' % (V, i)):
        if l.startswith('--- a/'):
            f = l[6:].strip(); bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', 'dbf6089..HEAD', f], stdout=subprocess.PIPE, text=True).stdout.split('\n')
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l)[1]) - 1
        elif l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            if bl[n].startswith('^'): orig += 1
            else: own.append(l[1:].strip())
            n += 1
        elif not l.startswith('+'): n += 1
    print(i, 'orig', orig, 'OWN' if own else '', own[:2])
