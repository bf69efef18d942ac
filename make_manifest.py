#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks which exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pbt import core
core.import_repo()
import pbt.checks   # noqa
from pbt.notes import NOTES

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    i = p['id']
    if i not in core.SUBS:
        missing.append({'property': i, 'reason': 'the check is still being '
                        'written'})
        continue
    technique, note = NOTES[i]
    checks.append({
        'property': i,
        'quick_cmd': f'/opt/venv/bin/python check.py {i}',
        'thorough_cmd': f'/opt/venv/bin/python check.py {i} --tier thorough',
        'technique': technique,
        'level': 'exploration',
        'level_note': note,
    })
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python selftest.py',
     'checks': checks}
if missing:
    m['not_applicable'] = missing
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks;', [x['property'] for x in missing], 'missing')
