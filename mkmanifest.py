#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
import props
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in props.CHECKS:
        s = props.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=s.get('technique', props.TECH), level=s.get('level', 'exploration'),
                           level_note=s.get('note', props.NOTE)))
na = [dict(property=i, reason=props.NA.get(i, 'check not built yet')) for i in ids if i not in props.CHECKS]
m = dict(version=1, setup_cmd='python3 check.py build', checks=checks, not_applicable=na,
         notes='No hooks were needed in /repo: the library\'s own interfaces (byte and message streams), operator new, the pthread/absl lock symbols and compiler instrumentation are the seams. "python3 check.py replay FILE [-v]" re-executes a replay file; "python3 check.py selftest" is the determinism proof.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
