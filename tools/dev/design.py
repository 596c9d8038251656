#!/usr/bin/env python3
"""The table of DESIGN.md: properties, functions under contract, lemmas, bounded parts, from the registered specifications and the last evidence files."""
import sys, os, json
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '../..')); sys.path.insert(0, V + '/tools/hv'); os.environ['HV_VERIF'] = V
import gen
reg = gen.load_specs(); out = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); P = reg.props.get(d['id'])
    if not P: continue
    ev = V + '/evidence/%s.json' % d['id']; n = json.load(open(ev))['coverage'] if os.path.exists(ev) else {}
    fs = P['fns']; fs = fs if len(fs) <= 14 else fs[:12] + ['... (%d in all)' % len(fs)]
    out.append('| %s | %s | %s | %s | %s |' % (d['id'], d['title'], ', '.join('`%s`' % f if '...' not in f else f for f in fs), n.get('obligations', '?'), '; '.join(P.get('bounded') or []) or '-'))
print('| id | property | contracts (names in specs/) | obligations | bounded parts (harness only, never counted as proved) |\n|---|---|---|---|---|\n' + '\n'.join(out))
