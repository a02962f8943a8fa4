"""Writes MANIFEST.json from the check modules that exist (python3-vt)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from manifest_notes import NOTES, NOT_APPLICABLE, TECHNIQUE  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
        continue
    cmd = '/opt/venv/bin/python vsym/main.py %s ' % i
    checks.append(dict(
        property=i, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
        technique=TECHNIQUE.get(i, TECHNIQUE['']), level='model_checking',
        level_note=NOTES.get(i, NOTES[''])))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup_check.py',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo. Every check re-reads and re-instruments '
               '/repo/src on each run.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
