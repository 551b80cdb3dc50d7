#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design/*.md, the planted bugs and the repair commits."""
import json, os, subprocess, glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd=lambda p: open(V+'/tools/design/'+p).read()
log=subprocess.run(['git','-C','/repo','log','--format=%s'],capture_output=True,text=True).stdout.splitlines()
fixes=sum(1 for l in log if l.startswith('fix:') )
lines=sum(1 for l in open(V+'/known-findings.txt') if l.startswith('fixed:'))
head=rd('head.md').replace('@FIXES@',str(fixes)).replace('@LINES@',str(lines))
rows=[]
missed=json.load(open(V+'/tools/design/missed.json')) if os.path.exists(V+'/tools/design/missed.json') else {}
cell=lambda x: ' '.join(str(x).split()).replace('|','\\|')
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |'%(i, 'missed: '+missed[i] if i in missed else m['property'], cell(m['what_it_breaks']), cell(m['needs'])))
out=head+'\n## 5. Planted bugs\n\n%d changes are kept under `seeded/`; each compiles, passes the suite, and has a\ndemonstration. The check named reports it (`tools/detect.sh`).\n\n| id | caught by the check of | breaks | needs |\n|---|---|---|---|\n'%len(rows)+'\n'.join(rows)+'\n\n'+rd('tail.md')+'\n'+rd('refactor.md')
open(V+'/DESIGN.md','w').write(out)
