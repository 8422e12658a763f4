#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'needs' 'breaks' < edits : helper used to write a planted bug (edits = python: list of (old,new) pairs on stdin; demo.cpp body after a line '---')"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, files, needs, breaks = sys.argv[1:6]
e, demo = sys.stdin.read().split('\n---\n', 1)
WT = '/tmp/w/s/wt'
subprocess.run(['git', '-C', WT, 'pull', '-q'], check=True); subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'], check=True)
edits = eval(e)
for ed in edits:
    f, old, new = ed if len(ed) == 3 else (files,) + tuple(ed)
    p = os.path.join(WT, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
d = os.path.join(V, 'seeded', sid); os.makedirs(d, exist_ok=True)
open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.run(['git', '-C', WT, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'])
open(os.path.join(d, 'demo.cpp'), 'w').write(demo); shutil.copy(os.path.join(V, 'tools', 'demo_template.sh'), os.path.join(d, 'demo.sh'))
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
