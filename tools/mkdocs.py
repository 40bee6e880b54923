#!/usr/bin/env python3
"""Regenerates ../properties.jsonl and ../MANIFEST.json from props.py."""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import props
V = os.path.dirname(H)
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q engine rules || true',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']}
                  for p in props.P if not p['na']],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in props.P if p['na']],
       'notes': 'All checks are static analyses of /repo/src, /repo/include and /repo/python sources; see DESIGN.md.'}
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')

# DESIGN.md
out = []
for p in props.P:
    if p['na']:
        continue
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Decided by* %s.' % p['technique'])
    if p.get('how'):
        out.append(p['how'])
    out.append('*Ranges over* %s. *Beyond tests:* %s *Trusted / bounds:* %s\n' % (p['text'], p['why'], p['note'].strip()))
na = ['* %s %s: %s' % (p['id'], p['title'], p['na']) for p in props.P if p['na']] or ['(none listed)']
fx = ['* ' + l.strip() for l in open(V + '/known_findings.txt') if l.startswith(('fixed:', 'finding:'))]
seeds = json.load(open(V + '/doc/seeds.json')) if os.path.exists(V + '/doc/seeds.json') else {}
sd = ['| bug | property | needs | result |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    sd.append('| %s | %s | %s: %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], seeds.get(i, '?')))
t = open(V + '/doc/DESIGN.in').read()
for k, v in (('PROPS', out), ('NA', na), ('FIXED', fx), ('SEEDED', sd)):
    t = t.replace('@@%s@@' % k, '\n'.join(v))
open(V + '/DESIGN.md', 'w').write(t)
