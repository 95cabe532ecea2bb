#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from techniques import TECH, NA
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, 'checks', p.lower() + '.py')) and p not in NA:
        checks.append({
            'property': p,
            'quick_cmd': 'python3 run.py ' + p,
            'thorough_cmd': 'python3 run.py ' + p,
            'technique': TECH.get(p, 'abstract interpretation of MIR'),
            'level': 'other',
            'level_note': 'static analysis of the built MIR: every path of the functions is summarised by abstract '
                          'interpretation (loops by fixpoint) and compared with the rule; a construct the '
                          'interpreter cannot summarise is reported as undecided in the evidence',
            'evidence_file': 'evidence/%s.json' % p,
        })
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no rule has been written yet')})
m = {'version': 1,
     'setup_cmd': 'cd driver && CARGO_TARGET_DIR=../.build/driver cargo +nightly build --release --offline',
     'checks': checks, 'not_applicable': na,
     'notes': 'run.py dumps the MIR of the current working tree of /repo with a rustc driver into a fresh directory '
              'under .build, analyses it, and removes the directory; VERIF_REPO overrides the tree to analyse'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
