#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
HOOKS = None


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level='exploration', observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe or []))


exec(open(os.path.join(V, 'tools', 'proplist.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'],
                                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
                   'thorough_cmd': './check %s thorough' % p['id'], 'technique': p['technique'], 'level': p['level'],
                   'level_note': p['note'], 'evidence_file': 'evidence/%s.json' % p['id']} for p in P],
       'not_applicable': NA,
       'notes': 'No hooks in /repo: all monitors observe public results, files and processes from outside.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
