"""python3-vt validate.py: properties.jsonl, MANIFEST.json and evidence against the schemas."""
import glob, json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    ids.append(p['id'])
    try:
        jsonschema.validate(p, s)
    except jsonschema.ValidationError as e:
        print(p['id'], e.message)
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), e)
covered = {c['property'] for c in m['checks']} | {n['property'] for n in m['not_applicable']}
print('ok', len(ids), 'properties;', set(ids) ^ covered)
