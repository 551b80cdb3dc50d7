#!/usr/bin/env python3
"""Create a behaviour-preserving refactoring: refac.py SPEC.py (refs=[dict(id, edits=[(file,old,new)], files={path:text})]); saved as refactor/ID.diff after it builds and passes the tests."""
import sys, os, subprocess, shutil, tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from seed import sh, tests
base,_=tests('/repo')
for spec in sys.argv[1:]:
    g={}; exec(open(spec).read(),g)
    for s in g['refs']:
        if os.environ.get('ONLY') and s['id'] not in os.environ['ONLY'].split(','): continue
        w=tempfile.mkdtemp(prefix='refac.',dir='/tmp'); c=w+'/repo'
        try:
            shutil.copytree('/repo',c,symlinks=True)
            bad=None
            for f,old,new in s['edits']:
                p=c+'/'+f; t=open(p).read()
                if t.count(old)!=1: bad='edit of %s matches %d times: %r'%(f,t.count(old),old[:60]); break
                open(p,'w').write(t.replace(old,new))
            for f,t in s.get('files',{}).items(): open(c+'/'+f,'w').write(t)
            if not bad:
                sh(['gofmt','-w','.'],c)
                r=sh(['go','vet','./...'],c)
                r=sh(['go','build','./...'],c)
                if r.returncode: bad='build: '+r.stderr
            if not bad:
                ok,r=tests(c)
                if base-ok: bad='tests fail: %s'%sorted(base-ok)[:5]
            if not bad:
                sh(['git','add','-A','-N'],c)
                open('/verif/refactor/'+s['id']+'.diff','w').write(sh(['git','diff'],c).stdout)
            print(s['id'], bad or 'OK', flush=True)
        finally: shutil.rmtree(w)
