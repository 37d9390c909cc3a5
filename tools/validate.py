import json,sys,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
cl={c['property'] for c in m['checks']}; na={c['property'] for c in m['not_applicable']}
assert cl|na==set(ids) and not cl&na,(set(ids)-cl-na,cl&na)
print('ok',len(ids),len(cl),len(na))
