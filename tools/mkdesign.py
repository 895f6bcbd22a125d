#!/usr/bin/env python3
"""Fills DESIGN.md from tools/design.md and the data below: the planted bugs come from seeded/*/meta.json, the repairs from known_findings.txt."""
import json,os,re,collections
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(f'{R}/tools/design.md').read()
kf=open(f'{R}/known_findings.txt').read().splitlines()
fx=collections.OrderedDict()
for l in kf:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fx.setdefault((m[2],m[3]),[]).append(m[1])
rep='\n'.join(f'* `{c}` ({", ".join(p)}): {w}' for (c,w),p in fx.items())
rows=[]
for d in sorted(os.listdir(f'{R}/seeded')):
    m=json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append(f'| {d} | {m["needs"]} | {m["what_it_breaks"]} |')
t=t.replace('@@REPAIRS@@',rep).replace('@@SEEDS@@','| planted bug | needs | breaks |\n|---|---|---|\n'+'\n'.join(rows)).replace('@@NSEEDS@@',str(len(rows)))
open(f'{R}/DESIGN.md','w').write(t)
