#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/plan.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'sim'))
from plan import PLAN, NOTE, WHYNOT
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PLAN:
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 sim/check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 sim/check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, workloads and faults; ' + NOTE.get(i, 'reference model as oracle'),
        'level': 'exploration',
        'level_note': 'No violation in the simulated executions explored (counts in the evidence); a sample, not an enumeration. Trusts the simulated Redis, MongoDB and Elasticsearch servers, the stubbed OpenTelemetry SDK and the source rewriter which puts clock, scheduling and I/O under the simulator.',
    })
m = {'version': 1, 'setup_cmd': 'python3 sim/check.py --setup', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': WHYNOT.get(i, 'The check of this property is not built yet.')} for i in ids if i not in PLAN],
     'notes': 'No hooks are needed in /repo: the build overlays rewritten copies of its sources (sim/rewriter). Replay a reported violation with: python3 sim/check.py --replay FILE'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
