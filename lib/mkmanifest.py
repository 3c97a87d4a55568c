#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(V, 'lib', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python checks/%s.py' % i,
            'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python checks/%s.py' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH.get(i, 'TLA+ specification model-checked with TLC; scenarios generated from it are driven '
                         'through the real code and the recorded trace is validated by TLC against the specification'),
            'level': 'model_checking',
            'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'All specifications are TLA+ (spec/*.tla), run with TLC through lib/vq.py; '
                    'each check copies /repo/quantas to a scratch directory, builds its extensions there and imports it.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
