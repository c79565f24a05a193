#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import meta  # noqa: E402

PY = '/opt/venv/bin/python -B check.py'
NOTE = ('Decided for all inputs and histories on the abstract pre-states described in DESIGN.md; sound up to the '
        'engine (sa/core) and its models of heapq, deque, numpy and networkx calls, which are trusted; obligations '
        'the analysis cannot decide are counted in the evidence and never reported as violations.')
props, checks = [], []
for p in sorted(meta.P, key=lambda p: p['id']):
    if len(p['title']) > 80:
        raise SystemExit('title too long: ' + p['id'])
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                    'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                    'observe_at': list(p['observe']), 'hook_needed': None}})
    if p['technique']:
        checks.append({'property': p['id'], 'quick_cmd': '%s %s' % (PY, p['id']),
                       'thorough_cmd': '%s %s --thorough' % (PY, p['id']),
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note'] or NOTE})
na = [{'property': i, 'reason': r} for i, r in getattr(meta, 'NA', [])]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in props:
        f.write(json.dumps(x) + '\n')
man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B tools/setup.py', 'checks': checks,
       'not_applicable': na,
       'notes': 'Static analysis only; no hooks in /repo. Known findings and fixed defects: known-findings.txt.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
