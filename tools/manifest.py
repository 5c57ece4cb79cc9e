#!/usr/bin/env python3
"""writes MANIFEST.json: claims every property that has a check module, the rest go to not_applicable with their reason"""
import importlib
import json
import os
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
NA = {}
if os.path.exists(os.path.join(root, 'tools', 'na.json')):
    NA = json.load(open(os.path.join(root, 'tools', 'na.json')))
checks, na = [], []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(root, 'sa', 'props', p.lower() + '.py')) and p not in NA:
        m = importlib.import_module('sa.props.' + p.lower())
        checks.append({'property': p, 'quick_cmd': './check %s --tier quick' % p, 'thorough_cmd': './check %s --tier thorough' % p,
                       'technique': getattr(m, 'TECHNIQUE', 'static analysis: interprocedural value-flow effect summaries computed from rustc MIR, matched against declarative obligations'),
                       'level': 'other', 'level_note': ' '.join((m.__doc__ or '').split())[:900]})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'the static check for this property has not been built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m sa.build', 'checks': checks, 'not_applicable': na}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
