#!/usr/bin/env python3
"""seed.py new ID PROP 'needs' 'what it breaks'  <- takes the working-tree edits of /repo and demo_test.go on stdin
   seed.py test ID...   applies each, builds, runs tests, demo and the property's quick check, undoes it"""
import sys,os,subprocess,json,shutil
S='/verif/seeded'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def undo(): sh('git -C /repo checkout -- .')
def check(i,full=True):
    d=f'{S}/{i}'; meta=json.load(open(d+'/meta.json')); r={}
    assert sh('git -C /repo status --porcelain').stdout.strip()=='' , 'repo dirty'
    x=sh(f'cd /repo && bash {d}/demo.sh'); r['demo clean']=x.returncode
    if x.returncode: print(x.stdout[-1500:])
    a=sh(f'git -C /repo apply {d}/patch.diff')
    if a.returncode: print(a.stdout); return
    try:
        b=sh('bash /opt/vp/build.sh'); r['build']=b.returncode
        if b.returncode: print(b.stdout[-1500:])
        x=sh(f'cd /repo && bash {d}/demo.sh'); r['demo bug']=x.returncode
        if '[build failed]' in x.stdout: r['demo bug']='BUILD FAILED'
        if full:
            sh('bash /opt/vp/test.sh /tmp/seed_t.json')
            base=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); got=set(json.load(open('/tmp/seed_t.json'))['passed'])
            r['lost tests']=sorted(base-got)[:5]
        c=sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh {meta["property"]} quick'); r['check']=c.returncode
        r['viol']=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')][:2]
        if c.returncode!=1: r['out']=c.stdout[-600:]
    finally: undo()
    ok=r['demo clean']==0 and r['build']==0 and r['demo bug']==1 and not r.get('lost tests')
    print(i,meta['property'],'VALID' if ok else 'INVALID','CAUGHT' if r['check']==1 and r['viol'] else 'MISSED',r if not (ok and r['check']==1) else r['viol'])
if sys.argv[1]=='new':
    i,prop,needs,br=sys.argv[2:6]; d=f'{S}/{i}'; os.makedirs(d,exist_ok=True)
    open(d+'/demo_test.go','w').write(sys.stdin.read())
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout); undo()
    shutil.copy('/verif/tools/demo.sh.tmpl',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=br),open(d+'/meta.json','w'),indent=1)
    check(i)
else:
    for i in (sys.argv[2:] or sorted(os.listdir(S))): check(i,full='-fast' not in sys.argv)
