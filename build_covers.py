#!/usr/bin/env python3
"""records in covers.json the labels every entry reaches (run by hand on the unchanged tree, after check.py)"""
import json, os, glob, re
import checks
V = checks.V
out = {}
for p, c in checks.PROPS.items():
    f = os.path.join(V, 'evidence', p + '.json')
    if os.path.exists(f):
        for n, r in json.load(open(f))['coverage']['entries'].items():
            if r: out[n] = sorted(r['covers'])
try: old = json.load(open(os.path.join(V, 'covers.json')))
except OSError: old = {}
old.update(out)
names = {n for c in checks.PROPS.values() for _, n in c['entries']}
json.dump({k: v for k, v in sorted(old.items()) if k in names}, open(os.path.join(V, 'covers.json'), 'w'), indent=1)
