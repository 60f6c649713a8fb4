#!/usr/bin/env python3
"""keep.py CASE: leaves the edited copy of /repo at /tmp/mut/keep/repo"""
import sys, shutil, os
sys.path.insert(0, os.path.dirname(__file__))
import cases
for cid, _, edits in cases.bugs + cases.quiet:
    if cid == sys.argv[1]:
        d = '/tmp/mut/keep'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
        os.makedirs(d + '/v/evidence'); shutil.copy('/verif/known-findings.txt', d + '/v/')
        for f, old, new in edits:
            s = open(f'{d}/repo/{f}').read(); assert old in s
            open(f'{d}/repo/{f}', 'w').write(s.replace(old, new, 1))
        print('export SA_REPO=/tmp/mut/keep/repo SA_VERIF=/tmp/mut/keep/v')
