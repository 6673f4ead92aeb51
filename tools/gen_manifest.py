#!/usr/bin/env python3
"""Write MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
checks = []
for p in ids:
    if p not in PLAN:
        continue
    worlds = ', '.join(w['world'] for w in PLAN[p]['worlds'])
    checks.append({
        'property': p,
        'quick_cmd': 'python3 tools/check.py %s quick' % p,
        'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
        'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults (world%s %s)' % ('s' if ',' in worlds else '', worlds),
        'level': PLAN[p].get('level', 'exploration'),
        'level_note': PLAN[p].get('note', 'seeded random exploration of interleavings, timing and faults of the real code; a pass means no violation in the runs explored'),
        'evidence_file': 'evidence/%s.json' % p,
    })
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'not claimed yet: the world that decides it is still being built')} for p in ids if p not in PLAN]
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py smoke', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: thread, lock, clock, allocation and system call seams are interposed at link time and through compiler instrumentation, so /repo is compiled unmodified. Checks build in /verif/build (git-ignored) from /repo\'s working tree.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
