"""(re)build /verif/known_findings.json: known entries from KNOWN below, fixed entries from the fix: commits"""
import json,subprocess,re
KNOWN=json.load(open('/verif/tools/known.json'))
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h%x09%B%x00']).decode().split('\0')
PROP=json.load(open('/verif/tools/fixprops.json'))
fx=[]
for e in log:
    e=e.strip()
    if not e: continue
    h,m=e.split('\t',1)
    if not m.startswith('fix:'): continue
    subj=m.split('\n')[0][5:]
    p=next((v for k,v in PROP.items() if re.search(k,subj)),None)
    assert p,subj
    for q in p.split(','):
        fx.append({'id':f'F-{h}-{q}','property':q,'status':'fixed','commit':h,'what':f'fixed: property={q} {h} {subj}'})
json.dump({'findings':KNOWN+fx},open('/verif/known_findings.json','w'),indent=1)
print(len(KNOWN),len(fx))
