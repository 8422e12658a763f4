"""addfix.py COMMIT 'text' PROP...: append fixed entries to known_findings.json"""
import json, sys
c, t, *ps = sys.argv[1:]
d = json.load(open('known_findings.json')); L = d if isinstance(d, list) else d['findings']
for p in ps: L.append({'property': p, 'status': 'fixed', 'commit': c, 'what': f'fixed: property={p} {c} {t}'})
json.dump(d, open('known_findings.json', 'w'), indent=1)
