#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/registry.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(H, 'lib'))
import registry as R
def line(s):
    return json.dumps({'id': s['id'], 'title': s['title'], 'statement': s['statement'], 'quantifier': {'over': s['over'], 'text': s['text']},
        'why_tests_cant': s['why'], 'anchors': {'files': s['files'], 'mechanism': [{'name': m, 'where': s['files'][0]} for m in s['mech']]}})
al = sorted(list(R.PROPS.values()) + R.NA, key=lambda s: s['id'])
for s in al: assert len(s['title']) <= 80, s['title']
open(os.path.join(H, 'properties.jsonl'), 'w').write('\n'.join(map(line, al)) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [
    {'property': s['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % s['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % s['id'],
     'technique': s['technique'], 'level': s['level'], 'level_note': s['note']} for s in sorted(R.PROPS.values(), key=lambda s: s['id'])],
  'not_applicable': [{'property': s['id'], 'reason': s['reason']} for s in R.NA],
  'notes': 'Static analysis only: every check reads the current sources of /repo through tool/extract.cpp and decides in lib/. No hooks in /repo.'}
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
