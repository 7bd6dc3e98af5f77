#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from table import P, NA, HOOKS
with open(root + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p.get('observe', [])))
        if not d['anchors']['observe_at']: del d['anchors']['observe_at']
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='mkdir -p build evidence replay', checks=[], not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA])
if HOOKS: m['hooks'] = HOOKS
for p in P:
    m['checks'].append(dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'], technique=p['technique'], level=p['level'], level_note=p['note']))
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
