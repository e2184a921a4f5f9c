#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written parts plus the tables made from properties.py, specs, seeded and known_findings.txt."""
import os, re, json, glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]; NA=[]
def prop(id,title,statement,over,text,why,files,mech,note,**k): P.append(dict(id=id,title=title,text=text,why=why,files=files,mech=mech,note=note))
def na(id,reason): NA.append((id,reason))
exec(open(here+'/properties.py').read())
har={}
for f in sorted(glob.glob(here+'/specs/**/zz_gvc_*.go',recursive=True)):
    t=open(f).read()
    for m in re.finditer(r'((?://gvc:[^\n]*\n|//[^\n]*\n)+)func (\w+)\(',t):
        d=m.group(1)
        pm=re.search(r'//gvc:(prove|bounded|finding)\b([^\n]*)',d)
        if not pm: continue
        for p in pm.group(2).split():
            if re.match(r'C\d\d$',p):
                har.setdefault(p,[]).append((os.path.relpath(os.path.dirname(f),here+'/specs'),m.group(2),pm.group(1)))
cost=json.load(open(here+'/tools/cost.json')) if os.path.exists(here+'/tools/cost.json') else {}
o=open(here+'/design/head.md').read()
for p in sorted(P,key=lambda p:p['id']):
    o+='\n### %s %s\n\n'%(p['id'],p['title'])
    o+='* Specified: %s.\n'%'; '.join(p['mech'])
    o+='* Over: %s.\n'%p['text']
    o+='* Code: %s.\n'%', '.join('`%s`'%f for f in p['files'])
    hs={}
    for d,n,k in har.get(p['id'],[]): hs.setdefault(d,[]).append(n+(' (bounded)' if k=='bounded' else ''))
    o+='* Contracts: %s.\n'%'; '.join('specs/%s: %s'%(d,', '.join(ns)) for d,ns in hs.items())
    n=p['note'].replace(globals()['COMMON'],'').strip()
    if n: o+='* Assumptions of its own: %s\n'%n
    o+='* Why tests cannot: %s\n'%p['why']
    c=cost.get(p['id'])
    if c: o+='* Cost (quick, 8 cores): %s obligations, %s s.\n'%(c[0],c[1])
if NA:
    o+='\n### Not applicable\n\n'
    for i,r in NA: o+='* %s: %s\n'%(i,r)
o+=open(here+'/design/tail.md').read()
for l in open(here+'/known_findings.txt'):
    m=re.match(r'fixed: property=(C\d\d) (\w+) (.*)',l)
    if m: o+='* %s `%s`: %s\n'%m.groups()
o+='\n## 7. Planted bugs and the checks that catch them\n\nEach is in /verif/seeded/<id> with a demonstration; "catches" is the result of `tools/trybug.sh`.\n\n| bug | property | what breaks | needs | caught |\n|---|---|---|---|---|\n'
caught=json.load(open(here+'/tools/caught.json')) if os.path.exists(here+'/tools/caught.json') else {}
for s in sorted(glob.glob(here+'/seeded/*/meta.json')):
    d=json.load(open(s)); i=os.path.basename(os.path.dirname(s))
    o+='| %s | %s | %s | %s | %s |\n'%(i,d['property'],d['what_it_breaks'],d['needs'],caught.get(i,'yes'))
o+=open(here+'/design/end.md').read()
open(here+'/DESIGN.md','w').write(o)
