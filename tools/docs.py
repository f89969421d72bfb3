#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from rules/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'rules')]
sys.dont_write_bytecode = True
import props
import registry

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in props.PROPS + getattr(props, 'NOT_APPLICABLE', []):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
           'technique': p['tech'], 'level': p['level'], 'level_note': p['note']} for p in props.PROPS if p['id'] in registry.FUNCS]
na = [{'property': p['id'], 'reason': p['reason']} for p in getattr(props, 'NOT_APPLICABLE', [])]
na += [{'property': p['id'], 'reason': 'no check is registered for it'} for p in props.PROPS if p['id'] not in registry.FUNCS]
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check rebuilds the zserio compiler from /repo, regenerates the corpus and analyses the sources; nothing '
              'generated is executed.'}
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
