#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import props
V = os.path.dirname(H)
with open(V + '/properties.jsonl', 'w') as fo:
    for p in props.P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        fo.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
        assert len(p['title']) <= 80, p['title']
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa || true',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                 'technique': p['tech'], 'level': p['level'], 'level_note': p['note']} for p in props.P if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in props.P if p['na']],
     'notes': getattr(props, 'NOTES', '')}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
