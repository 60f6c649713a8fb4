#!/usr/bin/env python3
"""Turns cases with a demonstration (dev/demos/<id>.go, first line '// pkg: <dir> [race]') into /verif/seeded/<id>/ after
confirming: tests pass with the patch, demo passes without and fails with it. usage: mkseed.py [ID...]"""
import os, shutil, subprocess, sys, json, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
import cases
sh = lambda c, cwd, **k: subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
ENV = dict(os.environ, GOPROXY='off')
def one(c):
    cid, prop, edits = c
    src = f'{here}/demos/{cid}.go'
    if not os.path.exists(src): return None
    head = open(src).read().split('\n')[:3]
    pkg = head[0].split(':')[1].split()
    needs = head[1].split(':', 1)[1].strip(); breaks = head[2].split(':', 1)[1].strip()
    d = f'/tmp/mkseed/{cid}'; shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d)
    out = f'/verif/seeded/{cid}'; os.makedirs(out, exist_ok=True)
    for f, old, new in edits:
        s = open(f'{d}/{f}').read()
        if old not in s: return f'{cid}: edit failed {f}'
        open(f'{d}/{f}', 'w').write(s.replace(old, new, 1))
    sh('gofmt -w ' + ' '.join(sorted({e[0] for e in edits})), d)
    open(f'{out}/patch.diff', 'w').write(sh('git diff', d).stdout)
    shutil.copy(src, f'{out}/demo_test.go.txt')
    race = '-race ' if 'race' in pkg[1:] else ''
    open(f'{out}/demo.sh', 'w').write(f'''#!/bin/bash
# runs the demonstration as a test of package {pkg[0]}, laid over the working tree
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp "$d/demo_test.go.txt" "$t/demo_test.go"
echo "{{\\"Replace\\": {{\\"$PWD/{pkg[0]}/zz_demo_test.go\\": \\"$t/demo_test.go\\"}}}}" >"$t/overlay.json"
go test -count=1 -timeout 120s {race}-overlay "$t/overlay.json" -run 'TestZZDemo' ./{pkg[0]}
''')
    os.chmod(f'{out}/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{out}/meta.json', 'w'), indent=1)
    r = sh('go build ./... && go test -timeout 60s ./...', d, env=ENV)
    if r.returncode: return f'{cid}: TESTS FAIL {r.stdout[-300:]}{r.stderr[-300:]}'
    a = sh(f'bash {out}/demo.sh', d, env=ENV)
    sh('git checkout -- .', d)
    b = sh(f'bash {out}/demo.sh', d, env=ENV)
    shutil.rmtree(d)
    if a.returncode == 0: return f'{cid}: demo PASSES with the patch'
    if 'build failed' in a.stdout or 'setup failed' in a.stdout: return f'{cid}: demo does not build {a.stdout}'
    if b.returncode: return f'{cid}: demo FAILS without the patch: {b.stdout[-800:]}{b.stderr[-300:]}'
    return f'{cid}: ok'
ids = sys.argv[1:]
with cf.ThreadPoolExecutor(4) as ex:
    for m in ex.map(one, [c for c in cases.bugs if not ids or c[0] in ids]):
        if m: print(m, flush=True)
