#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
 'C33': 'quantifies over real time and machine load: no static argument over the source bounds when a thread runs',
 'C34': 'exactness of IEEE rounding over all values and scalings needs bit-precise floating-point reasoning; no abstract domain used here decides it (the formula itself is decided by C26)',
 'C35': 'quantifies over pairs of program runs and the entropy of std::random_device; nothing in the source bounds a collision',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
na = []
for i in ids:
    f = f'{V}/checks/{i.lower()}.py'
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(f):
        src = open(f).read()
        doc = src.split('"""')[1].strip().replace('\n', ' ')
        tech = 'static analysis: ' + (src.split("TECHNIQUE = '")[1].split("'")[0] if "TECHNIQUE = '" in src else 'path-partitioned abstract interpretation of the type-checked program, compared with a specification')
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'./check {i} --tier thorough',
                       'technique': tech, 'level': 'other',
                       'level_note': doc + ' Trusts the models of the C++ library and system calls (eip/stdmodel.py, eip/sysmodel.py), the clang front end and the specification written in the check; paths or comparisons the domain cannot decide are counted in the evidence and raise no alarm, so the check is sound for alarms and complete only up to those.'})
    else:
        na.append({'property': i, 'reason': 'not claimed yet: the check is still being built'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the analysis reads the unmodified sources. known-findings.txt lists repaired defects.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
