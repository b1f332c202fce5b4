"""helper to make and confirm planted bugs (not used by any check)"""
import json,os,subprocess,shutil,sys
WT='/tmp/seedwt'
DEMO='''#!/bin/bash
# exits 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off DEMO_TMP=$t
r=$(pwd)
echo "{\\"Replace\\":{\\"$r/%(pkg)s/zz_demo_test.go\\":\\"$d/demo.go.txt\\"}}" > "$t/o.json"
timeout 200 go test -vet=off -count=1 -timeout 150s -overlay "$t/o.json" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd,cwd=None,to=300):
    return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=to)
def fresh():
    shutil.rmtree(WT,ignore_errors=True)
    sh('cp -a /repo %s && git -C %s checkout -q -- . '%(WT,WT))
ENV='PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off '
def seed(id,prop,edits,pkg,demo,needs,what,flags=''):
    fresh()
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    for f,old,new in edits:
        p=WT+'/'+f; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    open(d+'/patch.diff','w').write(sh('git diff',WT).stdout)
    open(d+'/demo.go.txt','w').write(demo)
    open(d+'/demo.sh','w').write((DEMO%dict(pkg=pkg)).replace('go test -vet','go test '+flags+'-vet')); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'/meta.json','w'),indent=1)
    b=sh(ENV+'go build ./...',WT); assert b.returncode==0,(id,b.stderr)
    t=sh(ENV+'go test -vet=off -count=1 ./... 2>&1 | grep -v "^{" | tail -5',WT)
    bad='FAIL' in t.stdout
    with_=sh('bash %s/demo.sh'%d,WT)
    sh('git checkout -q -- .',WT)
    clean=sh('bash %s/demo.sh'%d,WT)
    ok=not bad and with_.returncode!=0 and clean.returncode==0
    print(id,prop,'OK' if ok else 'BAD','tests',bad,'with',with_.returncode,'clean',clean.returncode)
    if not ok: print(t.stdout[-400:],with_.stdout[-600:],clean.stdout[-900:],clean.stderr[-300:])
    shutil.rmtree(WT,ignore_errors=True)
    return ok
