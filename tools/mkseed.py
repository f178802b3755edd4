#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the table in tools/seeds/*.py and confirms each
planted bug in a scratch copy: it builds, the stable tests pass, the demonstration
passes without it and fails with it.   usage: mkseed.py [id ...]"""
import glob,json,os,subprocess,sys,tempfile,shutil
seeds=[]
def seed(id,prop,pkg,edits,demo,needs,breaks,hide=(),module='/repo'):
    seeds.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks,hide=list(hide),module=module))
for f in sorted(glob.glob('/verif/tools/seeds/*.py')): exec(open(f).read())
want=sys.argv[1:]
DEMO='''#!/bin/bash
# Runs the demonstration as an extra test of the package; cwd is /repo.
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cat >"$t/overlay.json" <<EOF
{"Replace":{"$r/%(pkg)s/zz_demo_test.go":"$d/demo_test.go"%(hide)s}}
EOF
cd "$r%(sub)s" || exit 2
cp go.mod "$t/go.mod"
if [ -f go.sum ]; then cp go.sum "$t/go.sum"; fi
GOFLAGS=-mod=mod GOPROXY=off timeout 250 go test -modfile "$t/go.mod" -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run 'TestDemo' %(arg)s
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,**k)
base=json.load(open('/opt/vp/BASELINE.json'))
for s in seeds:
    if want and s['id'] not in want: continue
    d='/verif/seeded/'+s['id']
    if os.path.isdir(d) and not want: continue
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    sub='' ; arg='./'+s['pkg']
    if s['pkg'].startswith('nurbs'): sub='/nurbs'; arg='.'
    hide=''.join(',"$r/%s":""'%h for h in s['hide'])
    open(d+'/demo.sh','w').write(DEMO%dict(pkg=s['pkg'],hide=hide,sub=sub,arg=arg)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(s['demo'].lstrip())
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    w='/repo'
    assert sh('git status --porcelain',w).stdout=='' , 'repo dirty'
    ok=True; msg=[]
    r=sh('bash %s/demo.sh'%d,w)
    if r.returncode!=0: ok=False; msg.append('demo fails on clean tree: '+(r.stdout+r.stderr)[-1500:])
    try:
        for f,a,b in s['edits']:
            p=os.path.join(w,f); t=open(p).read()
            if t.count(a)!=1: ok=False; msg.append('%s: %d matches of %r'%(f,t.count(a),a)); continue
            open(p,'w').write(t.replace(a,b))
        diff=sh('git diff',w).stdout
        open(d+'/patch.diff','w').write(diff)
        r=sh('bash /opt/vp/build.sh',w)
        if r.returncode!=0: ok=False; msg.append('build: '+r.stderr[-800:])
        r=sh('bash /opt/vp/test.sh /tmp/seedtest.json',w)
        res=json.load(open('/tmp/seedtest.json')) if os.path.exists('/tmp/seedtest.json') else {}
        failed=[t for t in base['stable'] if t not in res.get('passed',[])]
        if failed: ok=False; msg.append('not passing: %s'%failed)
        r=sh('bash %s/demo.sh'%d,w)
        if r.returncode==0: ok=False; msg.append('demo passes with the bug')
        elif 'FAIL: TestDemo' not in r.stdout and 'panic' not in r.stdout: msg.append('odd failure: '+(r.stdout+r.stderr)[-600:])
    finally:
        sh('git checkout -- .',w)
    print(s['id'],s['prop'],'OK' if ok else 'BAD',*msg)
