#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; validates against the schemas when they are present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
lines, checks = [], []
for p in sorted(props.P, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['id']
    for f in p['files']:
        if not os.path.exists('/repo/' + f):
            print('no such anchor', p['id'], f)
    a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'] or ['program output'], 'hook_needed': None}
    if p['state']:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
    lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}))
    if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration',
                       'level_note': p['level_note']})
    else:
        print('no check for', p['id'])
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': props.NA if hasattr(props, 'NA') else [],
     'hooks': {'guard': 'none', 'enable': 'no hooks: all monitors observe the unmodified programs (plain, ASan+UBSan and MSan builds)', 'source_commits': []},
     'notes': 'Every check builds what it needs from /repo into /verif/.build (content-addressed) and runs seeded cases bounded by count.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in lines:
        jsonschema.validate(json.loads(l), s)
    print('valid', len(lines), 'properties', len(checks), 'checks')
except ImportError:
    print('written (no jsonschema)')
