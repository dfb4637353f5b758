#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from its hand-written parts and the harness comments."""
import json, re, glob, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NOTE={};NA={}
exec(open(V+'/tools/na.py').read())
hs={}
models={}
for f in sorted(glob.glob(V+'/harness/**/*.go',recursive=True)):
    src=open(f).read()
    pkg=re.search(r'^//verif:file pkg=(\S+)',src)
    for m in re.finditer(r'((?:^//.*\n)+)func (\w+)\(',src,re.M):
        doc=m.group(1)
        h=re.search(r'//verif:harness (.*)',doc)
        if not h: continue
        what=' '.join(l[2:].strip() for l in doc.split('\n') if l.startswith('// ') and not l.startswith('//verif'))
        b=[x for x in re.findall(r'//verif:bound (.*)',doc)]
        a=[x for x in re.findall(r'//verif:assume (.*)',doc)]
        for p in re.search(r'prop=(\S+)',h.group(1)).group(1).split(','):
            hs.setdefault(p,[]).append((m.group(2),os.path.relpath(f,V),pkg.group(1) if pkg else '',what,b,a,'thorough' if 'tier=thorough' in h.group(1) else ''))
out=[open(V+'/tools/design_head.md').read()]
out.append('## Properties\n')
for p in props:
    i=p['id']
    out.append(f"### {i} {p['title']}\n")
    out.append(p['statement']+'\n')
    if i in NA or i not in hs:
        out.append('Not claimed: '+NA.get(i,'not built yet')+'\n'); continue
    out.append('Anchors: '+', '.join(p['anchors']['files'])+'. Why tests cannot settle it: '+p['why_tests_cant']+'\n')
    for n,f,pkg,what,b,a,t in hs[i]:
        s=f"* `{n}` ({f}, in {pkg}{', thorough only' if t else ''}): {what}"
        if b: s+=' *Bounds:* '+'; '.join(b)+'.'
        if a: s+=' *Assumes:* '+'; '.join(a)+'.'
        out.append(s)
    if i in NOTE: out.append('\nNote: '+NOTE[i])
    out.append('')
out.append(open(V+'/tools/design_tail.md').read())
out.append('### Repairs\n')
for l in open(V+'/known-findings.txt'):
    l=l.strip()
    if l.startswith(('fixed:','known:')): out.append('* '+l)
out.append('\n## Planted bugs and what catches them\n')
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    out.append(f"* `{n}` ({m['property']}, {m.get('caught','caught by its quick check')}): {m['what_it_breaks']} Needs: {m['needs']}")
open(V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
