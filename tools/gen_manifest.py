#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, 'tools', 'levels.json')))
checks, na = [], []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    n = notes.get(i)
    if n is None or not os.path.exists(os.path.join(root, 'harness')):
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    if 'na' in n:
        na.append({'property': i, 'reason': n['na']})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i}',
        'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': n['technique'],
        'level': 'exploration',
        'level_note': n['note'],
    })
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^vm: count executed'], capture_output=True, text=True).stdout.split()
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'verif', 'enable': 'go build -tags verif (done by check.sh): counts executed VM instructions so that a runaway parse becomes a deterministic violation', 'source_commits': hook},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check is bash check.sh ID; bash check.sh replay FILE re-executes one case.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
