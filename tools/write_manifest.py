"""MANIFEST.json from contracts/registry.py and the list of properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts.registry import PROPS, NOTES

NOT_APPLICABLE = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in PROPS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'contract-based deductive verification of the real code (sidecar contracts and loop invariants, '
                         'obligations discharged by z3/cvc5 on every run; counterexamples searched and replayed on the real code)',
            'level': 'proof',
            'level_note': NOTES[i],
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'not yet under contract')})
json.dump({'version': 1,
           'setup_cmd': 'python3-vt -c "import z3, cvc5" && /opt/venv/bin/python -c "import numpy, scipy, sklearn, Cython"',
           'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
