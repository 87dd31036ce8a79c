"""Writes /verif/MANIFEST.json from the properties and the claims below."""
import json
import os
import sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import registry  # noqa: E402

PENDING = 'not claimed yet: its specification module is still to be written'
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in registry.CLAIMS:
        na.append({'property': i, 'reason': registry.NOT_CLAIMED.get(i, PENDING)})
        continue
    tech, note = registry.CLAIMS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                   'thorough_cmd': 'python3 check.py %s --thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': tech,
                   'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness uses public API and asyncio extension points only. '
              'Defects found and repaired are listed in known_findings.txt.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
