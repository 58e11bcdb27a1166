#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (checks/cNN.py) and the properties."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(ROOT, 'checks', pid.lower() + '.py')
    if os.path.exists(path) and pid in NOTES:
        src = open(path).read()
        level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
        checks.append(dict(property=pid, quick_cmd='./run.sh ' + pid, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + pid,
                           evidence_file='evidence/%s.json' % pid, technique=NOTES[pid][0], level=level,
                           level_note=NOTES[pid][1]))
    else:
        na.append(dict(property=pid, reason='no check built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='Every check runs the real code from /repo/src; no hooks are needed in /repo.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
