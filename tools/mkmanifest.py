#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, 'tools/techniques.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
    t = TECH.get(i, ['property-based testing against a reference model', ''])
    checks.append({
        'property': i, 'quick_cmd': './run.py %s --quick' % i,
        'thorough_cmd': './run.py %s --thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': t[0], 'level': 'exploration', 'level_note': t[1] or
        'Generated-input search with fixed case counts; no proof of absence. Trusts the '
        'reference model in /verif/checks and the string shims in /verif/shim.'})
  else:
    na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 vlib/build.py driver bant clang_tidy_cached',
     'checks': checks, 'not_applicable': na,
     'notes': 'Everything is built from /repo with the headers in /verif/shim standing in for '
              'absl string and log headers (see DESIGN.md). Known findings: known_findings.jsonl.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
