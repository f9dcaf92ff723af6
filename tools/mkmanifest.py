#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.cfg.json."""
import json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
C={}
def c(id,note,level='proof',quick=25,thorough=300,assumptions=(),tech='contract-based deductive verification: contracts on the functions of /repo, obligations generated from their SSA form, discharged by z3/cvc5'):
    C[id]=dict(level=level,proof=True,quick=quick,thorough=thorough,explanation=note,assumptions=list(assumptions),tech=tech)
exec(open(os.path.join(V,'tools','claims.py')).read())
ids=[json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
json.dump({k:{x:v for x,v in d.items() if x!='tech'} for k,d in C.items()},open(f'{V}/properties.cfg.json','w'),indent=1,ensure_ascii=False)
m=dict(version=1,setup_cmd='true',
 checks=[dict(property=i,quick_cmd=f'python3 check.py {i} quick',thorough_cmd=f'python3 check.py {i} thorough',technique=C[i]['tech'],level=C[i]['level'],level_note=C[i]['explanation']) for i in ids if i in C],
 not_applicable=[dict(property=i,reason=NA[i]) for i in ids if i not in C],
 notes='No hooks in /repo: contracts live in /verif/specs and are bound to the functions of /repo by name; harness files enter the build through an overlay.')
json.dump(m,open(f'{V}/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(m['checks']),'claimed')
# DESIGN.md from tools/design.in.md
import glob
T={json.loads(l)['id']:json.loads(l) for l in open(f'{V}/properties.jsonl')}
props=''.join(f"\n### {i} {T[i]['title']}\n\n{C[i]['explanation']}\n" for i in ids if i in C)
na=''.join(f"* {i} {T[i]['title']}: {NA[i]}\n" for i in ids if i not in C)
H=set(open(f'{V}/tools/seeds_bounded_only.txt').read().split())
seeds='| planted bug | property | breaks | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d=json.load(open(f)); n=f.split('/')[-2]
    by='bounded search' if n in H else 'failed obligation and input'
    seeds+=f"| {n} | {d['property']} | {d['what_it_breaks'].rstrip('.')} | {by} |\n"
s=open(f'{V}/tools/design.in.md').read()
for k,v in(('PROPS',props),('NA',na),('SEEDS',seeds)): s=s.replace(f'@@{k}@@',v.strip('\n'))
open(f'{V}/DESIGN.md','w').write(s)
