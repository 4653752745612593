#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from registry import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./check --setup', checks=[], not_applicable=[],
  notes='All checks run the real library from /repo/src/mpack, rebuilt from the working tree in several configurations under sanitizers; no hooks in /repo are needed (allocation, assertion and buffer-size configuration macros documented by mpack are used).')
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
            evidence_file='evidence/%s.json' % p, technique=c['technique'], level=c.get('level', 'exploration'),
            level_note=c.get('note', 'Holds on every execution the run observed (counts, configurations and samples in the evidence file); trusts the independent reference model, the compilers and their sanitizer runtimes.')))
    else: m['not_applicable'].append(dict(property=p, reason='check not built yet'))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
