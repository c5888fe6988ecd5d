#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json out of tools/props/*.json and the
registry.  One source of truth: a property is claimed iff it has a check."""
import glob
import json
import os.path as osp
import sys

HERE = osp.dirname(osp.abspath(__file__))
VERIF = osp.dirname(HERE)
sys.path.insert(0, HERE)
from registry import CHECKS  # noqa: E402
from props import PROPS, NOT_APPLICABLE  # noqa: E402

ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(osp.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in sorted(PROPS, key=lambda p: p['id']):
        p = dict(p)
        for k in ('technique', 'note', 'oracle'):
            p.pop(k, None)
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

checks = []
na = list(NOT_APPLICABLE)
nas = {n['property'] for n in na}
for p in sorted(PROPS, key=lambda p: p['id']):
    pid = p['id']
    if pid not in CHECKS:
        if pid not in nas:
            na.append(dict(property=pid, reason='check not built yet'))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd='python3 tools/check.py %s' % pid,
        thorough_cmd='VERIF_TIER=thorough python3 tools/check.py %s' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=p['technique'],
        level=p.get('level', 'exploration'),
        level_note=p['note']))
m = dict(version=1,
         setup_cmd='python3 tools/check.py build',
         checks=checks,
         not_applicable=na,
         notes='No hook is needed in /repo: the harnesses of /verif/harness '
               'are compiled with the sources of /repo (tools/vbuild.py).')
with open(osp.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print('%d properties, %d checks' % (len(PROPS), len(checks)))
