import json,jsonschema,os,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print("missing file",d['id'],f)
    n=d['statement'].count('. ')+1
    if n>3: print("sentences",d['id'],n)
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c=[x['property'] for x in m['checks']]; na=[x['property'] for x in m.get('not_applicable',[])]
assert sorted(c+na)==sorted(ids), (c,na,ids)
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for i in c:
    f=f'/verif/evidence/{i}.json'
    if os.path.exists(f): jsonschema.validate(json.load(open(f)),es)
    else: print("no evidence",i)
print("ok",len(c),"claimed",len(na),"n/a")
