#!/usr/bin/env python3
"""seed.py mk ID PROP FILE 'needs' 'breaks' < edit     (edit: OLD ===> NEW blocks) writes seeded/ID/{patch.diff,meta.json} (demo.cpp/demo.sh written by hand)
   seed.py verify ID...     copies /repo to a scratch folder, checks that the patch applies, builds, passes the stable tests, and that the demo passes before and fails after
   seed.py check ID...      runs the quick check of the seed's property against a patched scratch copy (SX_REPO); 'check ID PROP' another property's check"""
import sys, os, json, subprocess, shutil, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S=V+'/seeded'
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
g++ -std=c++%s -O1 -DNDEBUG%s -Isrc -o "$t/demo" "$d/demo.cpp" || exit 2
timeout 60 "$t/demo"
'''
def run(c,**k): return subprocess.run(c,shell=isinstance(c,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
def scratch(i,patched=True):
    d='/tmp/seed/'+i
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs('/tmp/seed',exist_ok=True); run(['cp','-a','/repo',d])
    if patched:
        r=run(['git','-C',d,'apply',f'{S}/{i}/patch.diff'])
        if r.returncode: print(i,'PATCH DOES NOT APPLY',r.stdout); return None
    return d
cmd=sys.argv[1]
if cmd=='mk':
    i,prop,f,needs,what=sys.argv[2:7]; std=sys.argv[7] if len(sys.argv)>7 else '20'; fl=' '+sys.argv[8] if len(sys.argv)>8 else ''
    ed=sys.stdin.read(); os.makedirs(f'{S}/{i}',exist_ok=True); d='/tmp/seed/mk_'+i; shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/seed',exist_ok=True)
    run(['git','-C','/repo','worktree','prune']); run(['git','clone','-q','/repo',d])
    base=f
    for b in ed.split('\n@@@@\n'):
        if '\n====>\n' not in b: continue
        o,n=b.split('\n====>\n')
        m=re.match(r'FILE (\S+)\n',o)
        if m: base=m.group(1); o=o[m.end():]
        p=d+'/'+base; s=open(p).read(); o=o.strip('\n'); n=n.strip('\n')
        if s.count(o)!=1: print('OLD text occurs',s.count(o),'times:',o); sys.exit(1)
        open(p,'w').write(s.replace(o,n))
    open(f'{S}/{i}/patch.diff','w').write(run(['git','-C',d,'diff']).stdout); shutil.rmtree(d)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(f'{S}/{i}/meta.json','w'),indent=1)
    open(f'{S}/{i}/demo.sh','w').write(DEMO%(std,fl)); os.chmod(f'{S}/{i}/demo.sh',0o755)
    print(open(f'{S}/{i}/patch.diff').read())
elif cmd=='demo':
    for i in sys.argv[2:]:
        a=run(['bash',f'{S}/{i}/demo.sh'],cwd='/repo'); d=scratch(i)
        if not d: continue
        b=run(['bash',f'{S}/{i}/demo.sh'],cwd=d); print(i,'clean',a.returncode,'patched',b.returncode, 'OK' if a.returncode==0 and b.returncode not in (0,2) else 'BAD\n'+a.stdout[-1500:]+b.stdout[-1500:]); shutil.rmtree(d)
elif cmd=='verify':
    for i in sys.argv[2:]:
        d=scratch(i)
        if not d: continue
        a=run(['bash',f'{S}/{i}/demo.sh'],cwd='/repo'); b=run(['bash',f'{S}/{i}/demo.sh'],cwd=d)
        o='/tmp/seed/opt_'+i; shutil.rmtree(o,ignore_errors=True); shutil.copytree('/opt/vp',o)
        run(f"grep -rlI -e /repo -e /opt/vp {o} | xargs sed -i 's#/repo#{d}#g; s#/opt/vp#{o}#g'"); t=run(['bash',o+'/test.sh',f'/tmp/seed/{i}.json'])
        base=json.load(open('/opt/vp/BASELINE.json')); bp=set(base.get('passed') or base.get('stable') or base.get('tests') or [])
        res=json.load(open(f'/tmp/seed/{i}.json')); miss=bp-set(res['passed'])
        ok=a.returncode==0 and b.returncode not in (0,2) and not miss
        print(i,'OK' if ok else 'BAD','demo clean',a.returncode,'patched',b.returncode,'tests missing',len(miss),sorted(miss)[:3],'' if ok else t.stdout[-600:] if miss else a.stdout[-800:]+b.stdout[-800:],flush=True)
        shutil.rmtree(d); shutil.rmtree(o); os.remove(f'/tmp/seed/{i}.json')
elif cmd=='check':
    a=sys.argv[2:]; prop=None
    if len(a)==2 and not os.path.exists(f'{S}/{a[1]}'): prop=a.pop()
    for i in a:
        d=scratch(i)
        if not d: continue
        p=prop or json.load(open(f'{S}/{i}/meta.json'))['property']
        r=run(['python3',V+'/check.py',p,'quick'],cwd=V,env=dict(os.environ,SX_REPO=d)); v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION') or 'violated' in l]
        print(i,p,'CAUGHT' if r.returncode==1 else f'MISSED rc={r.returncode}',v[:2] if r.returncode==1 else r.stdout[-400:],flush=True); shutil.rmtree(d)
