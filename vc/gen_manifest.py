#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the contract files present"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
NA = json.load(open(V + '/not_applicable.json')) if os.path.exists(V + '/not_applicable.json') else {}
NOTE = json.load(open(V + '/level_notes.json')) if os.path.exists(V + '/level_notes.json') else {}
DEF = ('Every obligation is discharged for all 64-bit run-time values (no bound) from the LLVM IR of the real headers, rebuilt on every run; '
       'template parameters are those instantiated by the contract programs. Trusts clang, the VC generator in /verif/vc and the SMT solvers.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or not (glob.glob('%s/contracts/%s.cpp' % (V, i)) or glob.glob('%s/contracts/%s_*.cpp' % (V, i))):
        na.append(dict(property=i, reason=NA.get(i, 'no contract written yet')))
        continue
    checks.append(dict(property=i, quick_cmd='python3-vt /verif/vc/main.py %s --tier quick' % i,
                       thorough_cmd='python3-vt /verif/vc/main.py %s --tier thorough' % i,
                       technique='deductive verification: contracts on the real headers, VC generation from their LLVM IR, SMT (z3/cvc5)',
                       level='proof', level_note=DEF + (' ' + NOTE[i] if i in NOTE else '')))
m = dict(version=1, setup_cmd='python3-vt /verif/vc/selftest.py', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
