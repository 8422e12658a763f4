#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks_config import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
DEF = ('z3 decides every assertion on every execution path of the clang bitcode of the current sources, for all input values within the stated bounds; counterexamples are replayed natively. '
       'Assumes exact real arithmetic for doubles and trusts the symbolic executor, clang -O1 and the Serial Kokkos overlay. ')
m = dict(version=1, setup_cmd='bash setup.sh',
    checks=[dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, evidence_file='evidence/%s.json' % p,
                 technique='symbolic execution of clang bitcode + z3, native replay', level='model_checking', level_note=DEF + 'Bounds: ' + (CHECKS[p].get('bounds') or 'see evidence')) for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check yet')) for p in props if p not in CHECKS],
    notes='No hooks in /repo: harnesses include the sources as they are. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
