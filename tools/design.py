#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the properties, tools/design_notes.md, the seeds and known_findings.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(name):
    with open(os.path.join(HERE, name), encoding='utf-8') as fh:
        return fh.read()


def main():
    props = [json.loads(x) for x in read('properties.jsonl').splitlines()]
    manifest = json.loads(read('MANIFEST.json'))
    notes = dict(re.findall(r'^## (\w+)\n(.*?)(?=^## |\Z)', read('tools/design_notes.md'), re.S | re.M))
    seeds = []
    for name in sorted(os.listdir(os.path.join(HERE, 'tools/seeds'))):
        if name.endswith('.py'):
            ns = {}
            exec(read('tools/seeds/' + name), ns)
            seeds.append((ns['PROPERTY'], name[:-3], ns['NEEDS']))
    known = json.loads(read('known_findings.json'))['findings']
    na = {x['property']: x['reason'] for x in manifest.get('not_applicable', [])}
    out = [read('tools/design_head.md').rstrip(), '']
    for d in sorted(props, key=lambda d: d['id']):
        i = d['id']
        out += ['', f'### {i} {d["title"]}', '']
        if i in na:
            out += ['Not applicable: ' + na[i], '']
            continue
        out += [notes.get(i, '').strip(), '']
        check = next(c for c in manifest['checks'] if c['property'] == i)
        out += ['Technique: ' + check['technique'] + '. ' + check.get('level_note', ''), '']
        mine = [s for s in seeds if s[0] == i]
        if mine:
            out += ['Planted bugs caught: ' + ', '.join('`' + s[1] + '`' for s in mine) + '.', '']
        fixed = [k['what'].split(' ', 2)[2] for k in known if k['property'] == i and k['status'] == 'fixed']
        if fixed:
            out += ['Genuine defects repaired:', ''] + ['* ' + f for f in fixed] + ['']
        for k in known:
            if k['property'] == i and k['status'] == 'known':
                out += ['Known finding (`' + k['key'] + '`): ' + k['what'], '']
    out += ['', '## Planted bugs and the checks that catch them', '', '| bug | property | needs |', '|---|---|---|']
    out += [f'| {s[1]} | {s[0]} | {" ".join(s[2].split())} |' for s in seeds]
    out += ['', 'Each is caught by the check of its own property (`tools/seed.py` applies every patch in a scratch copy, runs the build, the '
            'stable tests, the demonstration and the check).', '', notes.get('END', '').strip(), '']
    text = re.sub(r'\n{3,}', '\n\n', '\n'.join(out))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as fh:
        fh.write(text)
    print(len(text.splitlines()), 'lines')


if __name__ == '__main__':
    main()
