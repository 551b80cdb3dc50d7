import json,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={ # technique per property group
'codec':"abstract interpretation of the SSA (bit-provenance and term domains, trace partitioning) specialised to a catalogue of declarations, against an independent layout model",
}
tech=json.load(open('/verif/tools/technique.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    t=tech.get(i)
    if t is None or t.get('na'):
        na.append(dict(property=i,reason=(t or {}).get('na','check not built yet')));continue
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
      technique=t['technique'],level="other",level_note=t['note']))
m=dict(version=1,setup_cmd="./check.sh --build",checks=checks,not_applicable=na,
 notes="One analyser (rsa/) decides every property from the SSA form of /repo's current source; no code of /repo is executed. See DESIGN.md.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1);open('/verif/MANIFEST.json','a').write('\n')
