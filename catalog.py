#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 catalog.py"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, level='other', note='', state=None, observe=None, claimed=True):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a,
                      technique=technique, level=level, note=note, claimed=claimed))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, '', claimed=False)
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(HERE, 'properties_src.py')).read())

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 setup.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                     'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] or 'static: every path of the analysed functions, from /repo\'s current source'} for p in PROPS if p['claimed']],
         'not_applicable': NA}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
