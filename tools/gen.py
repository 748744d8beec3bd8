#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = 'include/MTToolBox/'
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, thorough=False, level='other'):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na, thorough=thorough, level=level))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m mtv.build', 'checks': [], 'not_applicable': []}
for p in PROPS:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        c = {'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
        if p['thorough']:
            c['thorough_cmd'] = 'python3 check.py %s --thorough' % p['id']
        m['checks'].append(c)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(PROPS), 'properties,', len(m['checks']), 'claimed')
