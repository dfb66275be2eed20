import json,jsonschema,glob,os
V='/verif/'
s=json.load(open('/root/.vp/PROPERTIES.schema.json')); ids=[]
for l in open(V+'properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); ids.append(p['id'])
    assert len(p['title'])<=80,p['title']
m=json.load(open(V+'MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
cl=[c['property'] for c in m['checks']]+[n['property'] for n in m['not_applicable']]
assert sorted(cl)==sorted(ids),(set(cl)^set(ids))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(V+'evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print('valid',len(ids))
