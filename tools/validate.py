import json,jsonschema,re
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,sc)
    n=len(re.findall(r'[.](?: |$)',p['statement']))
    if n>3: print(p['id'],n,'sentences')
