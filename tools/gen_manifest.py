#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = 'static value-graph equivalence (MIR abstract interpretation, normal-form comparison with a reference)'
NOTE = ('Decides equality of the extracted value graphs for all inputs; loops by fold/tab recurrences, floats as exact rationals (modulo rounding/NaN), '
        'release overflow semantics. Trusts rustc MIR, the std/rayon models and the reference definitions. Reports only fully modelled differences; anything it cannot normalise is listed as undetermined.')
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, lv, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 engine/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 engine/check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': lv, 'level_note': note})
    else: na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 engine/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: private items are read from the compiler. See DESIGN.md.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks])
