#!/bin/bash
cd "$(dirname "$0")/.." && python3 tools/gen_meta.py && python3-vt - <<'E'
import json, jsonschema, glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('evidence/C*.json'): jsonschema.validate(json.load(open(f)), e)
print("ok")
E
