"""Writes MANIFEST.json from the suites registered in harness/check.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, '..', 'harness'))
sys.dont_write_bytecode = True
import check  # noqa: E402

props = [json.loads(x)['id'] for x in open(os.path.join(here, '..', 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': []}
for p in props:
    if p in check.SUITES:
        m['checks'].append({
            'property': p, 'quick_cmd': f'bin/check {p}',
            'thorough_cmd': f'VERIF_TIER=thorough bin/check {p}',
            'evidence_file': f'evidence/{p}.json',
            'technique': check.TECH.get(p, check.TECH['*']),
            'level': 'model_checking',
            'level_note': check.NOTE.get(p, check.NOTE['*'])})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check under construction'})
with open(os.path.join(here, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
