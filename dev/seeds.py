#!/usr/bin/env python3
"""Runs the check of every kept seed (or those named) against a copy of /repo with the seed applied."""
import json,os,shutil,subprocess,sys
from concurrent.futures import ThreadPoolExecutor
S='/verif/seeded'
ids=sys.argv[1:] or sorted(os.listdir(S))
def one(i):
    d='/tmp/seeds/'+i
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.check_call(['cp','-a','/repo',d+'/repo'])
    if subprocess.call(['git','-C',d+'/repo','apply',f'{S}/{i}/patch.diff']): return i,'DOES NOT APPLY'
    prop=json.load(open(f'{S}/{i}/meta.json'))['property']
    os.makedirs(d+'/verif'); 
    for f in ('known-findings.txt','properties.jsonl'):
        if os.path.exists('/verif/'+f): shutil.copy('/verif/'+f,d+'/verif/')
    e=dict(os.environ,SA_REPO=d+'/repo',SA_VERIF=d+'/verif')
    try: p=subprocess.run(['/verif/bin/sa',prop],cwd='/verif',env=e,capture_output=True,text=True,timeout=900)
    except subprocess.TimeoutExpired: return i,'TIMEOUT'
    r='caught' if p.returncode==1 and 'VIOLATION property='+prop in p.stdout else f'MISSED ({prop}, exit {p.returncode})'
    shutil.rmtree(d,ignore_errors=True)
    return i,r
with ThreadPoolExecutor(3) as ex:
    for i,r in ex.map(one,ids):
        print(i,r,flush=True)
