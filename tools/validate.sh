#!/bin/bash
# schema validation of the committed files (needs the sandbox's python3-vt)
cd "$(dirname "$0")/.." && python3 tools/props.py && python3-vt - <<'PY'
import json, jsonschema, glob
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in glob.glob('evidence/*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print("valid")
PY
