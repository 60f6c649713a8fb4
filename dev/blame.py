#!/usr/bin/env python3
"""For every seed: how many removed lines come from the original commit."""
import subprocess, re, glob, os
for d in sorted(glob.glob('/verif/seeded/*')):
    f = None; n = 0; base = 0; tot = 0
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip(); bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.split('\n')
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            tot += 1; base += '351df11' in bl[n-1].split(')')[0]; n += 1
        elif l.startswith(' '): n += 1
    print(os.path.basename(d), base, tot, '' if base else '<-- only own lines')
