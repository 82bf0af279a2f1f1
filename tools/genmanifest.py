#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks which exist in mc/."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
MC,EX,FE='model_checking','exploration','fault_enumeration'
T={}
def t(id,level,technique,note): T[id]=(level,technique,note)
t('C01',MC,'stateless exploration of all operation histories of the real code against a list model',
  'every history up to depth 5 (6) over 11 operations, every index length to 700 (2600), every position; trusts the list model, the reference layout and the file system')
exec(open(V+'/tools/checks.py').read())
checks=[];na=[]
for p in props:
    id=p['id']
    if id in T and os.path.exists(f"{V}/mc/{id.lower()}/main.go"):
        l,te,no=T[id]
        checks.append(dict(property=id,quick_cmd=f"./run.sh {id} quick",thorough_cmd=f"./run.sh {id} thorough",
            evidence_file=f"evidence/{id}.json",technique=te,level=l,level_note=no))
    else:
        na.append(dict(property=id,reason="no check has been built yet"))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="No hooks in /repo: the checks which need a scheduler or fault injector transform a scratch copy of the working tree (mc/instr). See DESIGN.md.")
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),'checks',len(na),'not claimed')
