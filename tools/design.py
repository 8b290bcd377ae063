#!/usr/bin/env python3
"""DESIGN.md = design/*.md head + one section per property (design/props.txt prose + the //@bounds and //@assume lines of its harness) + tail"""
import json, re, glob, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd=lambda f: open(V+'/design/'+f).read()
prose={}; cur=None
for l in rd('props.txt').splitlines():
    m=re.match(r'## (\w+)',l)
    if m: cur=m.group(1); prose[cur]=[]
    elif cur: prose[cur].append(l)
out=[rd('head.md')]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']; out.append(f"### {i}. {p['title']}\n\n"+'\n'.join(prose.get(i,['(no prose)'])).strip()+'\n')
    for f in sorted(glob.glob(f'{V}/harness/{i}.cpp')+glob.glob(f'{V}/harness/{i}_*.cpp')):
        ls=[x[3:].strip() for x in open(f) if x.startswith('//@')]
        s=[x for x in ls if x.startswith('std')]; std=s[0].split()[1:] if s else ['20']
        out.append(f"- `{os.path.basename(f)}`, compiled as C++{' and C++'.join(std)}; entries: {len(re.findall(r'SX_ENTRY',open(f).read()))}\n")
        for k,t in (('bounds','Bounds'),('assume','Outside / assumed')):
            for x in ls:
                if x.startswith(k): out.append(f"- {t}: {x[len(k):].strip()}\n")
out.append(rd('tail.md'))
c=dict(l.strip().split(': ',1) for l in rd('catches.txt').splitlines() if ': ' in l)
t='| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); k=f.split('/')[-2]; t+=f"| {k} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c.get(k,'not run')} |\n"
out.append(t)
open(V+'/DESIGN.md','w').write('\n'.join(out))
