#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from manifest_table import LEVEL_NOTE, TECH, PENDING
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
import checks as C
out = {'version': 1, 'setup_cmd': 'python3 setup.py',
       'hooks': {'guard': 'none', 'enable': 'No hooks: the checks observe the library through its public interface only.', 'source_commits': []},
       'checks': [], 'not_applicable': []}
for p in props:
    if p in C.CHECKS:
        out['checks'].append({'property': p, 'quick_cmd': 'python3 run.py %s' % p, 'thorough_cmd': 'python3 run.py %s --thorough' % p,
                              'evidence_file': 'evidence/%s.json' % p, 'technique': TECH.get(p, TECH['*']), 'level': 'model_checking',
                              'level_note': LEVEL_NOTE.get(p, LEVEL_NOTE['*'])})
    else:
        out['not_applicable'].append({'property': p, 'reason': PENDING})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
