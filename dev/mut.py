#!/usr/bin/env python3
"""Development harness: applies small edits to scratch copies of /repo and runs the checks there.
usage: mut.py bugs|quiet [-c CHECK,CHECK] [-t] [ID ...]"""
import os, shutil, subprocess, sys, json, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
BIN = '/tmp/mut/sa.%d' % os.getpid()
def load(kind):
    import importlib
    m = importlib.import_module('cases')
    return getattr(m, kind)
def run(case, checks, tests):
    cid, prop, edits = case
    d = f'/tmp/mut/{cid}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
    os.makedirs(d + '/v/evidence')
    shutil.copy('/verif/known-findings.txt', d + '/v/') if os.path.exists('/verif/known-findings.txt') else None
    for f, old, new in edits:
        p = f'{d}/repo/{f}'
        s = open(p).read()
        if old not in s:
            return cid, prop, f'EDIT FAILED {f}: {old[:60]!r}', []
        s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    env = dict(os.environ, GOFLAGS='', GOPROXY='off')
    msg = ''
    if tests:
        r = subprocess.run('go build ./... && go vet ./... >/dev/null 2>&1; go test -timeout 60s ./... 2>&1 | grep -v "^ok\\|no test files"', shell=True, cwd=d + '/repo', env=env, capture_output=True, text=True)
        if r.stdout.strip() or r.stderr.strip():
            msg = 'TESTS: ' + (r.stderr + r.stdout)[:300]
    res = []
    for c in checks(prop):
        r = subprocess.run([BIN, c], env=dict(env, SA_REPO=d + '/repo', SA_VERIF=d + '/v'), capture_output=True, text=True, timeout=900)
        if r.returncode != 0:
            det = [l for l in r.stdout.splitlines() if l.startswith('  construct') or l.startswith('  rule')]
            res.append((c, r.returncode, ' | '.join(det[:6])))
    shutil.rmtree(d, ignore_errors=True)
    return cid, prop, msg, res
def main():
    os.makedirs('/tmp/mut', exist_ok=True)
    shutil.copy('/verif/bin/sa', BIN)
    a = sys.argv[1:]
    kind = a.pop(0)
    only = None; tests = False; ids = []
    while a:
        x = a.pop(0)
        if x == '-c': only = a.pop(0).split(',')
        elif x == '-t': tests = True
        else: ids.append(x)
    allc = subprocess.run(['/verif/bin/sa', 'list'], capture_output=True, text=True).stdout.split()
    allc = [c for c in allc if not c.startswith('X')]
    if kind == 'bugs':
        checks = lambda prop: only or [prop]
    else:
        checks = lambda prop: only or allc
    cases = [c for c in load(kind) if not ids or c[0] in ids or c[1] in ids]
    if kind == 'quiet': tests = True
    with cf.ThreadPoolExecutor(4) as ex:
        for cid, prop, msg, res in ex.map(lambda c: run(c, checks, tests), cases):
            if kind == 'bugs':
                st = 'caught' if res else 'MISSED'
            else:
                st = 'ALARM ' if res else 'quiet '
            print(st, cid, prop, msg, *[f'\n      {r}' for r in res][:4], flush=True)
try:
    main()
finally:
    os.path.exists(BIN) and os.unlink(BIN)
