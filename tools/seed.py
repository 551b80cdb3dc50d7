#!/usr/bin/env python3
"""Create a planted bug: seed.py SPEC.py   (SPEC defines id, property, needs, breaks, edits=[(file,old,new)], demo (Go test source), pkg)
Confirms in a scratch copy that it builds, passes the stable tests, and that the demo separates the two trees."""
import sys, os, json, subprocess, shutil, tempfile
ENV=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOTOOLCHAIN='local')
DEMO='''#!/bin/bash
# Runs demo_test.go inside the package through an overlay; nothing is written to the repository.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/PKG/zz_demo_test.go" "$d/demo_test.go.txt" > "$t/overlay.json"
go test -vet=off -overlay "$t/overlay.json" -run '^TestSeededDemo$' -count=1 RACE -timeout 120s ./PKG
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def tests(cwd):
    r=sh(['go','test','-json','-vet=off','-count=1','-timeout','3m','./...'],cwd)
    ok=set()
    for l in r.stdout.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'.'+d['Test']); ok.add(d['Test'])
    return ok, r
def make(s):
    w=tempfile.mkdtemp(prefix='seed.',dir='/tmp'); c=w+'/repo'
    try:
        shutil.copytree('/repo',c,symlinks=True)
        sh(['git','checkout','-q','--','.'],c)
        for f,old,new in s['edits']:
            p=c+'/'+f; t=open(p).read()
            if t.count(old)!=1: return 'edit of %s matches %d times: %r'%(f,t.count(old),old[:60])
            open(p,'w').write(t.replace(old,new))
        r=sh(['gofmt','-l','.'],c)
        r=sh(['go','build','./...'],c)
        if r.returncode: return 'build: '+r.stderr
        base,_=tests('/repo'); ok,r=tests(c)
        if base-ok: return 'tests fail: %s'%sorted(base-ok)[:5]
        d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(sh(['git','diff'],c).stdout)
        pkg=s.get('pkg','.').strip('/')
        demo=DEMO.replace('./PKG','.' if pkg=='.' else './'+pkg).replace('PKG/','' if pkg=='.' else pkg+'/').replace('RACE','-race' if s.get('race') else '')
        open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo_test.go.txt','w').write(s['demo'])
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        a=sh(['bash',d+'/demo.sh'],'/repo')
        if a.returncode: return 'demo fails on the unchanged tree:\n'+a.stdout[-1500:]+a.stderr[-500:]
        b=sh(['bash',d+'/demo.sh'],c)
        if b.returncode==0: return 'demo passes with the patch'
        if '--- FAIL' not in b.stdout and 'DATA RACE' not in b.stdout and 'panic' not in b.stdout: return 'demo breaks otherwise:\n'+b.stdout[-800:]+b.stderr[-800:]
        return None
    finally: shutil.rmtree(w)
if __name__=='__main__':
    for spec in sys.argv[1:]:
        g={}; exec(open(spec).read(),g)
        only=os.environ.get('ONLY')
        for s in g['seeds']:
            if only and s['id'] not in only.split(','): continue
            if os.path.exists('/verif/seeded/%s/ok'%s['id']): continue
            e=make(s)
            print(s['id'], 'OK' if e is None else 'PROBLEM '+e, flush=True)
            if e is not None and os.path.isdir('/verif/seeded/'+s['id']): shutil.rmtree('/verif/seeded/'+s['id'])
