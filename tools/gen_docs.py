#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
ready = {n[:3].upper() for n in os.listdir(os.path.join(root, 'checks')) if n[0] == 'p' and n.endswith('.py')}
lines, checks, na = [], [], []
for p in PROPS:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                    'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                    'observe_at': p['observe'], 'hook_needed': None}}))
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    elif p['id'] in ready:
        checks.append({'property': p['id'],
                       'quick_cmd': './check %s --tier quick' % p['id'],
                       'thorough_cmd': './check %s --tier thorough' % p['id'],
                       'technique': p['technique'] or 'runtime monitoring: ' + p['design'].split(':')[0][:110],
                       'level': 'exploration', 'level_note': p['level_note']})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet; runtime monitoring applies'})
open(os.path.join(root, 'properties.jsonl'), 'w').write('\n'.join(lines)+'\n')
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check stages a private copy of /repo, builds its extension modules and runs the real code under monitored workloads; no hooks are needed in /repo.'},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
head = open(os.path.join(here, 'DESIGN_head.md')).read()
tail = open(os.path.join(here, 'DESIGN_tail.md')).read()
entries = [json.loads(l) for l in open(os.path.join(root, 'known_findings.jsonl')) if l.strip()]
MISSED_FIRST = {l.strip() for l in open(os.path.join(here, 'missed_first.txt'))}
seeds = []
for name in sorted(os.listdir(os.path.join(root, 'seeded'))):
    meta = json.load(open(os.path.join(root, 'seeded', name, 'meta.json')))
    seeds.append('| %s | %s | %s | %s%s |' % (name, meta['what_it_breaks'], meta['needs'], meta['property'], ' *' if name in MISSED_FIRST else ''))
tail = tail.replace('@SEEDS@', '\n'.join(seeds))
tail = tail.replace('@KNOWN@', '\n'.join('- %s (%s): %s' % (e['property'], e['site'], e['what']) for e in entries if e['status'] == 'known'))
tail = tail.replace('@FIXED@', '\n'.join('- %s %s: %s' % (e['property'], e['commit'], e['what']) for e in sorted((e for e in entries if e['status'] == 'fixed'), key=lambda e: e['property'])))
body = ['## Properties and how each is decided\n']
for p in PROPS:
    body.append('### %s %s\n' % (p['id'], p['title']))
    body.append('*Property.* '+p['statement']+'\n')
    body.append('*Quantified over* '+p['text']+'. *Why tests cannot settle it:* '+p['why']+'\n')
    if p['na']:
        body.append('*Not claimed:* '+p['na']+'\n')
    else:
        body.append('*Decided by* '+p['design']+' *Assurance:* '+p['level_note']+'\n')
open(os.path.join(root, 'DESIGN.md'), 'w').write(head+'\n'+'\n'.join(body)+'\n'+tail)
print(len(checks), 'checks,', len(na), 'not claimed')
