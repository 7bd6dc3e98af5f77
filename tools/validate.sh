#!/bin/bash
# validate the committed metadata and the evidence against the schemas
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json,jsonschema,glob
m=json.load(open('MANIFEST.json'));jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),ps)
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print(len(m['checks']),'checks',len(open('properties.jsonl').readlines()),'properties ok')
P
