#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS                   # noqa

NOT_APPLICABLE = {
    'N01': 'a pure function of one statistics tree: no schedule, clock, fault or interleaving to simulate',
    'N02': 'pure functions of one number: no schedule, clock, fault or interleaving to simulate',
    'N03': 'a pure function of the command line and two files read once at start: nothing to schedule; '
           'input generation would not be a simulation',
    'N04': 'a pure function of one stack and its arguments, and the C extension is never built here '
           '(PyPy, no build step): nothing to simulate',
}
NOTE = ('Seeded random exploration of simulated executions of the real code: a clean batch is evidence, not '
        'proof. Trusts the simulator (scheduler, clocks, signals and the stand-ins listed in the evidence) and '
        'assumes switches happen between Python statements and after calls. ')

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({
        'property': p,
        'quick_cmd': 'bin/check %s --tier quick' % p,
        'thorough_cmd': 'bin/check %s --tier thorough' % p,
        'technique': 'deterministic simulation with fault injection (seeded schedule and fault search, '
                     'replayable minimised traces)',
        'level': 'exploration',
        'level_note': NOTE + (c.note or ''),
    })
na = []
for p in props:
    if p in CHECKS:
        continue
    na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: the simulator replaces the seams the code already has '
                    '(standard library functions) and inserts scheduling points while loading the code.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
