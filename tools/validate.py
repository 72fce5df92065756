#!/usr/bin/env python3-vt
"""Validates properties.jsonl, MANIFEST.json and evidence against the schemas in /root/.vp."""
import glob, json, os, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), S("MANIFEST"))
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), S("PROPERTIES"))
for f in glob.glob(V + "/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("valid")
