import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
    for f in d['anchors']['files']:
        import os
        if not os.path.exists('/repo/'+f): print('missing anchor',d['id'],f)
import os
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]; n=[x['property'] for x in m.get('not_applicable',[])]
    assert not set(c)&set(n); assert set(c)|set(n)==set(ids),(set(ids)^(set(c)|set(n)))
    for x in c:
        f=f'/verif/evidence/{x}.json'
        if os.path.exists(f): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('ok',len(ids))
