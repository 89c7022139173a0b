#!/usr/bin/env python3
"""runall.py [-jN] [-p PROP,PROP] id...: runs the check of each planted bug's property (and others) in copies."""
import json,os,shutil,subprocess,sys,time
from concurrent.futures import ThreadPoolExecutor
args=sys.argv[1:]; jobs=3; props=None; tier='quick'
while args and args[0].startswith('-'):
    a=args.pop(0)
    if a.startswith('-j'): jobs=int(a[2:])
    elif a=='-p': props=args.pop(0).split(',')
    elif a=='-t': tier='thorough'
V=os.environ.get('RUNALL_VERIF') or os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S=os.environ.get('RUNALL_SEEDED') or V+'/seeded'
ids=args or sorted(os.listdir(S))
def one(b):
    tag=b.replace('/','_')
    r,v='/tmp/pr_'+tag,'/tmp/pv_'+tag
    for p in (r,v):
        if os.path.exists(p): shutil.rmtree(p)
    shutil.copytree('/repo',r,symlinks=True)
    shutil.copytree(V,v,symlinks=True,ignore=shutil.ignore_patterns('.git','seeded','evidence'))
    os.makedirs(v+'/evidence')
    if b!='clean':
        subprocess.run(['git','apply',S+'/'+b+'/patch.diff'],cwd=r,check=True)
    m=v+'/harness/go.mod'; s=open(m).read(); assert '=> /repo' in s; open(m,'w').write(s.replace('=> /repo','=> '+r))
    out=[]
    for p in props or [json.load(open(S+'/'+b+'/meta.json'))['property']]:
        t=time.time()
        q=subprocess.run(['python3',v+'/check.py',p,tier],cwd=v,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick'))
        vi=[l for l in q.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('KNOWN')]
        out.append('%s rc=%d %ds %s'%(p,q.returncode,time.time()-t,vi[:1]))
        open('/tmp/seed_log_%s_%s.txt'%(tag,p),'w').write(q.stdout)
    for p in (r,v): shutil.rmtree(p)
    return b,out
with ThreadPoolExecutor(jobs) as ex:
    for b,o in ex.map(one,ids): print(b,'|',' ; '.join(o),flush=True)
