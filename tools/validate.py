#!/opt/veriftools/pyvenv/bin/python
import json,jsonschema,os,glob
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,sch); ids.append(d['id'])
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f) and '*' not in f: print('no file',d['id'],f)
    if d['statement'].count('. ')+1>3: print('long',d['id'])
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
a=[c['property'] for c in m['checks']]+[n['property'] for n in m['not_applicable']]
assert sorted(a)==sorted(ids),(set(ids)^set(a))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('ok',len(m['checks']),'claimed')
