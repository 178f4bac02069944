#!/bin/bash
# valid.sh : the committed files against the schemas
python3-vt - <<'P'
import json,jsonschema
V=jsonschema.Draft202012Validator(json.load(open('/root/.vp/PROPERTIES.schema.json')))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    for e in V.iter_errors(d): print(d['id'], list(e.path), e.message[:200])
V=jsonschema.Draft202012Validator(json.load(open('/root/.vp/MANIFEST.schema.json')))
for e in V.iter_errors(json.load(open('/verif/MANIFEST.json'))): print(list(e.path), e.message[:200])
P
