#!/usr/bin/env python3-vt
"""Regenerate MANIFEST.json from properties.jsonl, harness/techniques.json and the harnesses present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
tech = json.load(open(os.path.join(here, 'harness', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'harness', i.lower() + '.cc')):
        checks.append({
            'property': i,
            'quick_cmd': './run_check %s quick' % i,
            'thorough_cmd': './run_check %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': tech[i]['technique'],
            'level': 'exploration',
            'level_note': tech[i]['note'],
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet (work in progress); property-based testing applies'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'run_check mirrors /repo by content into /verif/.build, builds it with ASan/UBSan along with the '
              'harness of the property and runs generated cases; VERIF_SEED selects the sequence of cases.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
