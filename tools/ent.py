#!/usr/bin/env python3
"""ent.py PXX: per-entry statistics of the last run"""
import json, sys
e = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))
for k, x in sorted(e['coverage']['entries'].items()): print(k, {a: x[a] for a in ('paths', 'asserts', 'incomplete', 'queries', 'solver_s', 'wall_s')})
