#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
import properties_src

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(checks, 'NOT_APPLICABLE', {})
m = {'version': 1,
     'setup_cmd': 'python3 tools/setup.py',
     'checks': [], 'not_applicable': []}
for p in properties_src.PROPS:
    i = p['id']
    if i in checks.CHECKS:
        s = checks.CHECKS[i]
        m['checks'].append({'property': i,
                            'quick_cmd': f'python3 tools/check.py {i} --tier quick',
                            'thorough_cmd': f'python3 tools/check.py {i} --tier thorough',
                            'technique': s.technique, 'level': 'model_checking', 'level_note': s.note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check has been built yet')})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
