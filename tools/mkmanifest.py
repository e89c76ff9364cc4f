#!/usr/bin/env python3
"""Writes MANIFEST.json from props.STEPS / props.NOTES and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in props.STEPS:
        tech, note = props.NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=tech, level='model_checking', level_note=note))
    else: na.append(dict(property=i, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='python3 tools/selfcheck.py', checks=checks, not_applicable=na,
  notes='All engines execute the library code of /repo itself, rebuilt from the working tree into /verif/build (ignored by git). No hooks in /repo. Engines: mc/ (source-level DPOR), tso/ (machine-code x86-TSO), seq/ (exhaustive enumeration of operand spaces and histories).'),
  open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
