#!/usr/bin/env python3
"""MANIFEST.json from the registered properties"""
import sys, os, json
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, V + '/tools/hv'); os.environ['HV_VERIF'] = V
import gen
reg = gen.load_specs()
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []; na = []
for i in ids:
    P = reg.props.get(i)
    if P and not P.get('off'):
        n = 'contracts on the real functions (%d functions named, callees closed over), every obligation discharged on each run by z3/cvc5 through Why3; executable contracts search for a failing input' % len(P['fns'])
        if P.get('bounded'): n += '; bounded, not proved: ' + '; '.join(P['bounded'])
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                           technique='contract-based deductive verification (C++ AST extracted mechanically to WhyML, Why3 VCs, z3/cvc5)', level='proof', level_note=n))
    else: na.append(dict(property=i, reason=NA.get(i, 'not brought under contract: the functions it depends on are outside what was specified and proved here')))
M = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
