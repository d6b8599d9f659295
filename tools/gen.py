#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), level_note=None,
         technique=None, na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, level_note=level_note,
                  technique=technique, na=na))


exec(open(os.path.join(HERE, 'tools', 'table.py'), encoding='utf-8').read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
        if p['state']:
            anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            anchors['observe_at'] = list(p['observe'])
        anchors['hook_needed'] = None
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['qtext']},
                             'why_tests_cant': p['why'], 'anchors': anchors}, ensure_ascii=False) + '\n')

checks, na = [], []
for p in P:
    claimed = p['na'] is None and os.path.exists(os.path.join(HERE, 'sa', 'rules', p['id'].lower() + '.py'))
    if claimed:
        checks.append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} --tier quick',
                       'thorough_cmd': f'python3 check.py {p["id"]} --tier thorough',
                       'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'no check registered yet (work in progress)'})
man = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json; print(\'nothing to build\')"',
       'checks': checks, 'not_applicable': na,
       'notes': 'All checks are pure static analysis of /repo by the Python standard library (ast); nothing of '
                '/repo is imported or executed. Known findings are in known_findings.json.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write('\n')
print(len(P), 'properties;', len(checks), 'claimed;', len(na), 'not claimed')
