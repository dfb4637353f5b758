#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: every property that has a harness is claimed, the
# others are listed with the reason in NA.
import json, re, os, glob
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claimed=set()
for f in glob.glob(V+'/harness/**/*.go',recursive=True):
    for m in re.finditer(r'^//verif:harness .*?prop=(C\d\d(?:,C\d\d)*)',open(f).read(),re.M):
        claimed.update(m.group(1).split(','))
NA={}
exec(open(V+'/tools/na.py').read())
SKIP=set(NA)
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed and i not in SKIP:
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
          evidence_file=f'evidence/{i}.json',
          technique='symbolic execution of the go/ssa form of the real code, assertions decided by z3/cvc5, counterexamples replayed natively',
          level='model_checking',
          level_note=NOTE.get(i,'')+(' ' if i in NOTE else '')+'Solver verdict over all values within the bounds listed in the evidence; trusts the SSA interpreter and the stand-ins named there, which sampled paths are replayed natively against.'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'not built yet')))
json.dump(dict(version=1,setup_cmd='./run.sh setup',checks=checks,not_applicable=na,
  hooks=dict(guard='none',enable='no hooks in /repo: harnesses are added to the packages by a build overlay',source_commits=[])),
  open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
