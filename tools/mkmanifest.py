import json,sys
sys.path.insert(0,'/verif/harness')
from spec import SPEC
from reasons import NA
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH='symbolic execution of LLVM IR compiled from the real sources, assertions decided by Z3; counterexamples replayed natively'
checks=[];na=[]
for p in props:
    i=p['id']
    if i in SPEC:
        sp=SPEC[i]
        b='; '.join(sorted({e['bounds'] for e in sp['entries'] if e.get('bounds')}))
        checks.append({'property':i,'quick_cmd':'python3 check.py %s quick'%i,'thorough_cmd':'python3 check.py %s thorough'%i,'technique':TECH,'level':'model_checking','level_note':('bounded: '+b)[:900] if b else 'bounded; see DESIGN.md'})
    else:
        na.append({'property':i,'reason':NA.get(i,'no check built yet')})
m={'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'na')
