#!/opt/veriftools/pyvenv/bin/python
"""Validates properties.jsonl, MANIFEST.json and evidence against their schemas."""
import json, glob, os, jsonschema
S = '/root/.vp/'
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
def chk(name, obj, schema):
    try:
        jsonschema.validate(obj, schema)
    except jsonschema.ValidationError as e:
        print(name, 'INVALID', e.message[:300], list(e.path))
        return 1
    return 0
bad = 0
P = json.load(open(S + 'PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    bad += chk(d['id'], d, P)
bad += chk('MANIFEST', json.load(open(V + '/MANIFEST.json')), json.load(open(S + 'MANIFEST.schema.json')))
E = json.load(open(S + 'EVIDENCE.schema.json'))
for f in sorted(glob.glob(V + '/evidence/*.json')):
    bad += chk(f, json.load(open(f)), E)
print('invalid:', bad)
