#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/config.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks.config import PROPERTIES  # noqa: E402

PURE = ('a pure function of its operands: no schedule, clock, fault, allocation or I/O can influence it, so a '
        'simulator has nothing to decide (input generation would be a different technique)')
NA = {
    'C12': PURE, 'C13': PURE, 'C14': PURE, 'C15': PURE, 'C16': PURE, 'C17': PURE,
    'C18': 'compares compile-time configurations of pure functions; nothing a scheduler or fault could decide',
    'C19': 'a property of the linker and of symbol names, not of an execution',
}
NOTE = ('seeded search over instruction-level schedules and injected faults of the real compiled code under a '
        'deterministic simulator; a clean search is evidence, not proof; assumes sequentially consistent, '
        'instruction-atomic memory accesses and gcc -O2 code generation')
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in PROPERTIES:
        c = PROPERTIES[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': c.get('technique', 'deterministic simulation: seeded instruction-level scheduling'),
                       'level': c['level'], 'level_note': c.get('note', NOTE)})
    elif p not in NA:
        NA[p] = 'check not built yet'
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'hooks': {'guard': 'none', 'enable': '', 'source_commits': []},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo: the yield points are put into the compiled assembly (sim/asmsim.py), the heap and the '
              'CPU are replaced at link time and in the assembly. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
