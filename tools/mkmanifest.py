#!/usr/bin/env python3
"""Writes MANIFEST.json from driver/config.py and the list below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'driver'))
import config  # noqa

NA = {
 'C20': 'A pure function of its input: no schedule, clock, fault, I/O or '
        'interleaving is involved, so there is nothing to simulate. The '
        'round trips that C01-C04 perform under faults and schedules use '
        'the same payload generator, which is as far as this family reaches.',
 'C21': 'A pure function of its input, and the reference (Flash players, '
        'other AMF stacks) is not available in the sandbox.',
 'C22': 'A pure function of the document and the configuration; no '
        'nondeterminism to control.',
 'C23': 'A pure function of class declarations and attributes; no '
        'nondeterminism to control (first-use races on the same code are '
        'decided by C03).',
 'C24': 'The Cython extension cannot be built here (no CPython 2.7, no '
        'Cython), so only one of the two implementations can run.',
 'C25': 'SQLAlchemy, Elixir and the App Engine datastore libraries are '
        'absent: only stubs of them could run, and the adapters consist of '
        'calls into them. (The Django adapter is C17: there the real ORM '
        'runs over a simulated database.)',
 'C26': 'Resource bounds are a performance property of a pure function; '
        'the simulator does not model time or memory spent by the '
        'interpreter.',
}
NOTE = ('Seeded sampling of schedules and faults, not exhaustive: a clean '
        'batch is evidence within the run budget, not proof. Runs the '
        'working tree\'s real library code under Jython 2.7 (the only '
        'Python 2 here). ')

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': './check %s --tier quick' % i,
            'thorough_cmd': './check %s --tier thorough' % i,
            'technique': 'deterministic simulation with fault injection: '
                         + c['technique'],
            'level': 'exploration',
            'level_note': NOTE + c['note'],
        })
    else:
        na.append({'property': i,
                   'reason': NA.get(i, 'Not claimed yet: its simulation is '
                                       'still being built.')})
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'checks': checks, 'not_applicable': na,
     'notes': 'One driver (./check) decides every property; see DESIGN.md. '
              'No hooks were needed in /repo: every seam is injected from '
              'the outside.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
