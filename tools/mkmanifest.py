#!/usr/bin/env python3
"""writes MANIFEST.json: one check per property that has contracts and is not listed in PENDING/NA"""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(H, 'tools', 'na.json')))
notes = json.load(open(os.path.join(H, 'tools', 'level_notes.json')))
checks = []; na = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA: na.append({'property': p, 'reason': NA[p]}); continue
    if not glob.glob(os.path.join(H, 'contracts', p + '*.cpp')): na.append({'property': p, 'reason': 'no contracts written yet'}); continue
    bd = sorted({m for f in glob.glob(os.path.join(H, 'contracts', p + '*.cpp')) for m in re.findall(r'bounded="([^"]*)"', open(f).read())})
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'technique': 'contract-based deductive verification: contracts compiled with the real templates to LLVM IR, verification conditions by symbolic execution, discharged by rational-identity normalisation, z3, cvc5',
        'level': 'proof', 'level_note': notes.get(p, 'all inputs over the reals for the listed dimensions and instantiations; floating point treated as exact real arithmetic; template sizes enumerated') + ('; bounded, not counted as proved: ' + '; '.join(bd) if bd else '')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
