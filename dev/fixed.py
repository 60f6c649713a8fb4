#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known-findings.txt: commit -> property."""
import subprocess
M = {'979163c':'R02','5e13796':'R17','0ad174e':'R17','8ad6403':'R12','7826bb7':'R10','8f8a084':'M04','c228ab9':'M05','88a4503':'M03','9153712':'M02','a66bea5':'M01','fa4780a':'W05','bf58fb4':'W16','340fd83':'W08','d9445ab':'W07','f111739':'W03','9cb8ebf':'W09','7b84b0c':'W09','a959009':'W05','d625502':'W02','fa29893':'R18','a1d2cc8':'R05','9ec345f':'W08','7078a84':'R11','0c70584':'R11','156beda':'R02','b582e1c':'R21','ede57fb':'W01','eedcdac':'R12','bd47ed8':'R02','ad089f3':'R14','79595a1':'R21','f504af9':'R15','f7de54a':'R11','8161bfa':'R02','119c0ec':'R11','6f8f796':'R15','c5ba230':'W13','6457a1b':'W04','59ed25c':'W03','6ad6515':'R20','40a1e8a':'R04','1958789':'R04','0c275cc':'R04'}
L = subprocess.run("git -C /repo log --format='%h %s' 351df11..HEAD", shell=True, capture_output=True, text=True).stdout.splitlines()
print('# Findings. "known:" lines are matched exactly by rule and construct; "fixed:" lines suppress nothing.')
for l in L:
    h, s = l.split(' ', 1)
    print(f'fixed: property={M[h]} {h} {s.removeprefix("fix: ")}')
