#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOL = 'spectralDNS/solvers/'

PROPS = []
NA = []
TECH = 'abstract interpretation of the source into polynomial normal forms (symbolic value numbering), compared with a reference model'


def P(id, title, statement, over, text, why, files, mech, note, technique=TECH, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, note=note, technique=technique, na=na))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            assert os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')), p['id']
            checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'],
                           'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa checks run.py',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'Static analysis only: nothing of /repo is executed by any check; no hooks were added to /repo.'},
                  f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
