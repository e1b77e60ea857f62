#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the properties and the checks that exist."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
folder = os.path.join(HERE, 'mc', 'checks')
files = {f[:3].upper(): f for f in os.listdir(folder) if re.match(r'c\d\d_.*\.py$', f)}
HISTORIES = ('bounded-exhaustive explicit-state model checking of the real code: every operation history up to the stated depth is executed '
             'on fresh real objects in lockstep with an independent reference model, compared after every step')
SWEEPS = ('bounded-exhaustive model checking of the real code: every case of a finite, completely enumerated input space is executed on the '
          'real code and judged by an independent reference model')
checks, missing = [], []
for p in props:
    i = p['id']
    if i not in files:
        missing.append(dict(property=i, reason='check not built yet'))
        continue
    text = open(os.path.join(folder, files[i])).read()
    h, s = 'ctx.histories(' in text, 'ctx.sweep(' in text
    technique = HISTORIES + ('; and every case of finite input enumerations' if s else '') if h else SWEEPS
    checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i, technique=technique,
                       level='model_checking',
                       level_note='%s: exhaustive within the bounds that the evidence file lists per section' % p['title']))
m = dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=missing)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(missing), 'missing')
