import json,jsonschema,os,sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
L=[json.loads(l) for l in open('/verif/properties.jsonl')]
for x in L:
    try: jsonschema.validate(x, s if s.get('type')=='object' else s.get('items',s))
    except Exception as e: print(x['id'],str(e)[:200])
    for f in x['anchors']['files']+[m['where'] for m in x['anchors']['mechanism']]:
        if not os.path.exists('/repo/'+f): print(x['id'],'missing',f)
if os.path.exists('/verif/MANIFEST.json'):
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir('/verif/evidence'):
    if f.endswith('.json'):
        try: jsonschema.validate(json.load(open('/verif/evidence/'+f)),es)
        except Exception as e: print(f,str(e)[:300])
print(len(L),'properties ok')
