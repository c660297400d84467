#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and the list of claimed checks
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
cl=json.load(open(V+'/tools/claims.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    c=cl['claimed'].get(i)
    if c:
        checks.append(dict(property=i,quick_cmd=f'python3-vt /verif/check.py {i} --tier quick',
          thorough_cmd=f'python3-vt /verif/check.py {i} --tier thorough',
          evidence_file=f'evidence/{i}.json',
          technique='contract-based deductive verification: own VC generator over clang IR of the real functions, function contracts + loop invariants, discharged by z3/cvc5',
          level='proof',level_note=c['note']))
    else:
        na.append(dict(property=i,reason=cl['na'].get(i,'check under construction')))
m=dict(version=1,setup_cmd='bash /verif/setup.sh',checks=checks,not_applicable=na,notes='See DESIGN.md')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'n/a')
