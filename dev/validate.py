import json, sys
from jsonschema import validate
V='/root/.vp/'
m=json.load(open('MANIFEST.json')); validate(m, json.load(open(V+'MANIFEST.schema.json')))
ps=json.load(open(V+'PROPERTIES.schema.json'))
for l in open('properties.jsonl'): validate(json.loads(l), ps)
print("valid")
