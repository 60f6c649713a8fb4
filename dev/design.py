#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: head, one section per property from the tables, the evidence and seeded/, tail."""
import json, glob, os, re
V = '/verif/'
OWN = set('m04-trim m06-reset r09-nsec r13-tar-readdir r16-off r17-last w02-e-lost w06-close-early w08-compactuid w13-ero-skip w13-tar-skip'.split())
props = [json.loads(l) for l in open(V + 'properties.jsonl')]
man = json.load(open(V + 'MANIFEST.json'))
chk = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
rules = {}
for f in glob.glob(V + 'sa/check_*.go'):
    s = open(f).read()
    for m in re.finditer(r'register\(&Check\{ID: "(\w+)"', s):
        rules[m[1]] = os.path.basename(f)
seeds = {}
for f in sorted(glob.glob(V + 'seeded/*/meta.json')):
    d = json.load(open(f)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
out = [open(V + 'dev/design_head.md').read().rstrip() + '\n']
for p in props:
    i = p['id']
    if i not in chk: continue
    c = chk[i]
    ev = {}
    if os.path.exists(V + f'evidence/{i}.json'): ev = json.load(open(V + f'evidence/{i}.json'))
    out.append(f"### {i}: {p['title']}\n")
    anc = '; '.join(f"{m['where']}" for m in p['anchors']['mechanism'])
    out.append(f"* Decided by: {c['technique'].replace('static analysis: ', '')} (`sa/{rules.get(i, '?')}`).")
    ex = ev.get('coverage', {}).get('explanation', '')
    if ex: out.append(f"* Rule: {ex}")
    out.append(f"* Over: {p['quantifier']['text']}. Anchored at {anc}.")
    out.append(f"* Coverage and bounds: {c['level_note']}")
    if ev.get('coverage', {}).get('instances'):
        out.append('* Instances on the present tree: ' + ', '.join(f'{k} {v}' for k, v in sorted(ev['coverage']['instances'].items())) + f". Cost: about {max(1, round(ev['wall_s']))} s.")
    out.append(f"* Why tests cannot: {p['why_tests_cant']}\n")
out.append('## Properties this family cannot decide here\n')
for p in props:
    if p['id'] in na: out.append(f"* {p['id']} ({p['title']}): {na[p['id']]}")
out.append('\n' + open(V + 'dev/design_tail.md').read().rstrip() + '\n')
out.append('| property | planted bugs its check catches |\n|---|---|')
for i in sorted(seeds):
    out.append(f"| {i} | " + ', '.join(n + ('*' if n in OWN else '') for n, _ in seeds[i]) + ' |')
open(V + 'DESIGN.md', 'w').write('\n'.join(out) + '\n')
