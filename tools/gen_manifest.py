#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from specs import SPECS, TECH
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'N01': 'A run-time monitor observes single executions; it cannot decide secret-independent timing (a statement about micro-architectural time over pairs of secrets, noisy in a shared sandbox) nor computational unpredictability (a statement about every attacker). The S-box and window tables are indexed by secrets, so the timing part is not even claimed by the code.'}
checks = []
for p in props:
    if p in NA:
        continue
    if p not in SPECS:
        NA[p] = 'not yet claimed: its monitor is still being built'
        continue
    s = SPECS[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py ' + p, evidence_file='evidence/%s.json' % p,
                       technique=s.get('technique', TECH), level=s.get('level', 'exploration'), level_note=s.get('note', s['rule'])))
m = dict(version=1, setup_cmd='python3 lib/prebuild.py', hooks=dict(guard='none: the library is observed from outside (objcopy symbol redirection, sanitizers, public structures)', enable='nothing to enable; checks compile /repo/src as it is', source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(NA), 'not applicable')
