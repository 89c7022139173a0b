#!/usr/bin/env python3
"""mk.py SPEC.py [id...]: makes and confirms the planted bugs of a spec file."""
import json, os, re, shutil, subprocess, sys, importlib.util
OUT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','..','seeded')
ENV=dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
STABLE=json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO='''#!/bin/bash
# Run in the repository: exit 0 if it behaves as it should, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/"
{
	printf '{"Replace": {"%%s": "%%s"' "$PWD/%(pkg)s/seeddemo_test.go" "$here/demo_test.go"
%(extra)s	printf '}}'
} > "$tmp/overlay.json"
go test -modfile="$tmp/go.mod" -overlay="$tmp/overlay.json" -vet=off -count=1 -timeout 280s%(race)s -run '^TestSeedDemo$' ./%(pkg)s
'''
def run(cmd, cwd, timeout=400):
    p=subprocess.run(cmd,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    return p.returncode,p.stdout
def stable(cwd):
    rc,o=run(['go','test','-json','-vet=off','-count=1','-timeout','10m','./...'],cwd)
    passed=set()
    for l in o.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get('Action')=='pass' and d.get('Test'): passed.add(d['Package']+'/'+d['Test'])
    return [s for s in STABLE if s not in passed]
def main():
    spec=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]: continue
        w='/tmp/seedwork'
        if os.path.exists(w): shutil.rmtree(w)
        shutil.copytree('/repo',w,symlinks=True)
        bad=None
        for f,old,new in b['edits']:
            p=os.path.join(w,f); s=open(p).read()
            if s.count(old)!=1: bad='edit %s matches %d: %r'%(f,s.count(old),old[:60]); break
            open(p,'w').write(s.replace(old,new))
        if bad: print(b['id'],'FAIL',bad); continue
        d=os.path.join(OUT,b['id']); os.makedirs(d,exist_ok=True)
        run(['gofmt','-l','.'],w)
        rc,fm=run(['gofmt','-l']+[e[0] for e in b['edits']],w)
        rc,diff=run(['git','diff'],w)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo_test.go','w').write(b['demo'].lstrip('\n'))
        open(d+'/demo.sh','w').write(DEMO%{'extra':''.join('\tprintf \', "%%s": "%%s"\' "$PWD/%s/%s" "$here/%s_%s"\n'%(pk,os.path.basename(f),pk,os.path.basename(f)) for pk,fs in b.get('extra',{}).items() for f in fs),'pkg':b['pkg'],'race':' -race' if b.get('race') else ''}); os.chmod(d+'/demo.sh',0o755)
        for pk,fs in b.get('extra',{}).items():
            for f in fs:
                t=open(f).read(); t=re.sub(r'(?m)^package \w+','package '+pk,t,count=1)
                open(d+'/'+pk+'_'+os.path.basename(f),'w').write('//go:build go1.22\n\n'+t)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        open(d+'/meta.json','a').write('\n')
        rc,o=run(['go','build','./...'],w)
        if rc: print(b['id'],'FAIL build',o[-1500:]); continue
        miss=stable(w)
        if miss: miss=stable(w)
        if miss: print(b['id'],'FAIL stable',miss); continue
        c,oc=run([d+'/demo.sh'],'/repo')
        x,ox=run([d+'/demo.sh'],w)
        ok = c==0 and x!=0 and '[build failed]' not in ox and '[setup failed]' not in ox
        print(b['id'],'ok' if ok else 'FAIL demo', 'clean=%d patched=%d'%(c,x), 'gofmt:'+fm.strip() if fm.strip() else '')
        if not ok: print('--clean\n',oc[-1500:],'\n--patched\n',ox[-1500:])
        else: print('   ', [l for l in ox.splitlines() if 'seeddemo' in l or 'DATA RACE' in l or 'panic' in l][:2])
        shutil.rmtree(w)
if __name__ == "__main__": main()
