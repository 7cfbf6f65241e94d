#!/usr/bin/env python3
"""Rewrite MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for i in ids:
    p = PROPS.get(i)
    if not p:
        na.append(dict(property=i, reason='the check for this property is not finished yet'))
        continue
    checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py ' + i,
                       evidence_file='evidence/%s.json' % i, technique=p['technique'],
                       level=p['level'], level_note=p['note']))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
         notes='All checks compile /repo sources into a git-ignored cache under /verif; no hooks are needed in /repo.')
with open(os.path.join(here, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write('\n')
