"""python3-vt tools/validate.py: properties.jsonl and MANIFEST.json against their schemas"""
import json
import os
import jsonschema
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open(HERE + '/properties.jsonl'):
    jsonschema.validate(json.loads(line), s)
jsonschema.validate(json.load(open(HERE + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
