#!/usr/bin/env python3
"""seed.py FILE.py [id...]: builds seeded bugs from a spec file (dev tool, no check uses it).
The spec defines bugs=[dict(id,prop,file,edits=[(old,new)],demo=go test body,imports=[..],needs,breaks)]."""
import sys,os,subprocess,json,shutil,re
ns={}
exec(open(sys.argv[1]).read(),ns)
want=sys.argv[2:]
sfx=str(os.getpid())
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOWORK='off',GOFLAGS='-mod=mod',GOPROXY='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',HOME='/root',GOCACHE='/root/.cache/go-build')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo_test.go\\":\\"$d/demo.go.txt\\"}}" > "$t/ov.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/ov.json" -run '^TestVerifDemo$' .
'''
def run(c,cwd,**k): return subprocess.run(c,cwd=cwd,env=env,capture_output=True,text=True,**k)
for b in ns['bugs']:
    if want and b['id'] not in want: continue
    w='/tmp/seedw'+sfx+''
    shutil.rmtree(w,ignore_errors=True); shutil.copytree('/repo',w,symlinks=True)
    files=b['file'] if isinstance(b['file'],list) else [b['file']]
    for e in b['edits']:
        old,new=e[-2],e[-1]
        f=e[0] if len(e)==3 else files[0]
        s=open(f'{w}/{f}').read()
        n=b.get('count',1)
        assert s.count(old)>=1,(b['id'],'not found',old)
        if s.count(old)>1 and 'nth' not in b: raise SystemExit(f"{b['id']}: {s.count(old)} matches of {old!r}")
        if 'nth' in b and s.count(old)>1:
            i=-1
            for _ in range(b['nth']): i=s.index(old,i+1)
            s=s[:i]+new+s[i+len(old):]
        else: s=s.replace(old,new)
        open(f'{w}/{f}','w').write(s)
    d=f"/verif/seeded/{b['id']}"; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(run(['git','diff'],w).stdout)
    imps=''.join(f'\t"{i}"\n' for i in ['testing']+b.get('imports',[]))
    open(d+'/demo.go.txt','w').write(f'package raml\n\nimport (\n{imps})\n\n{b.get("decls","")}\nfunc TestVerifDemo(t *testing.T) {{\n{b["demo"]}\n}}\n')
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
    r=run(['go','build','./...'],w)
    if r.returncode: print(b['id'],'BUILD FAIL',r.stderr[:500]); continue
    r=run(['go','test','-json','-vet=off','-count=1','./...'],w)
    passed=set()
    for l in r.stdout.splitlines():
        try: q=json.loads(l)
        except Exception: continue
        if q.get('Action')=='pass' and q.get('Test'): passed.add(q['Package']+'/'+q['Test'])
    miss=[s for s in stable if s not in passed]
    r0=run(['bash',d+'/demo.sh'],'/repo'); r1=run(['bash',d+'/demo.sh'],w)
    e2=dict(env,VERIF_REPO=w,VERIF_DIR='/tmp/seedv'+sfx)
    shutil.rmtree('/tmp/seedv'+sfx,ignore_errors=True); os.makedirs('/tmp/seedv'+sfx)
    shutil.copytree('/verif/contracts','/tmp/seedv'+sfx+'/contracts'); shutil.copytree('/verif/hints','/tmp/seedv'+sfx+'/hints')
    if os.path.exists('/verif/known_findings.txt'): shutil.copy('/verif/known_findings.txt','/tmp/seedv'+sfx+'/')
    t0=__import__('time').time(); c=subprocess.run(['true'] if os.environ.get('SEED_NOCHECK') else ['/verif/bin/govc','check','-property',b['prop'],'-tier','quick'],env=e2,capture_output=True,text=True)
    v=[l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'failed obl' in l]
    ok='OK' if not miss and r0.returncode==0 and r1.returncode!=0 else 'BAD'
    print(b['id'],ok,flush=True) if 0 else print(b['id'],ok,'tests missing',len(miss),miss[:3],'demo clean',r0.returncode,'demo bug',r1.returncode,'| check exit',c.returncode,int(__import__('time').time()-t0),'s','\n   '+'\n   '.join(x[:200] for x in v[:4]))
    if r0.returncode: print(r0.stdout[-1500:],r0.stderr[-500:])
    if r1.returncode and 'build failed' in r1.stdout: print(r1.stdout[-800:])
shutil.rmtree('/tmp/seedw'+sfx+'',ignore_errors=True); shutil.rmtree('/tmp/seedv'+sfx,ignore_errors=True)
