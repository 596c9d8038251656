#!/usr/bin/env python3
"""developer driver: hv.py [-x] [-n] name...  : (re)generate and prove functions / lemmas"""
import sys, os, json, time, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, prove
from translate import Unsupported
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('names', nargs='*'); ap.add_argument('-n', action='store_true', help='no proof'); ap.add_argument('-x', action='store_true', help='re-extract')
ap.add_argument('-p', action='store_true', help='print file'); ap.add_argument('-t', type=int, default=0); ap.add_argument('-q', action='store_true'); ap.add_argument('-l', action='store_true')
a = ap.parse_args()
W = '/tmp/hvw'; os.makedirs(W, exist_ok=True)
J = W + '/all.json'
if a.x or not os.path.exists(J): gen.extract(J)
dump = json.load(open(J))
reg = gen.load_specs()
m = gen.Mapped(reg, dump)
if a.l:
    for f in dump['functions']: print(m.sigof(f))
    sys.exit()
for w, why in m.missing.items():
    if not a.names or w in a.names: print('MISSING', w, why)
names = []
for x in a.names or list(reg.lemmas) + list(reg.fns):
    if x.startswith('C') and x in reg.props: names += reg.props[x]['lemmas'] + reg.props[x]['fns']
    elif x.endswith('*'): names += [n for n in list(reg.lemmas) + list(reg.fns) if n.startswith(x[:-1])]
    else: names.append(x)
hp = W + '/hints.json'
hints = json.load(open(hp)) if os.path.exists(hp) else {}
allok = True
allgoals = []
for w in names:
    if w in m.missing: continue
    try:
        m.ctx.recname.clear(); m.ctx.recdefs.clear(); m.ctx.recorder.clear()
        G = gen.Gen(reg, m)
        if w in reg.lemmas: txt = G.lemma_file(w)
        else: txt, info = G.fn_file(w)
    except Unsupported as e:
        print('UNSUPPORTED', w, e); allok = False; continue
    p = '%s/%s.mlw' % (W, w); open(p, 'w').write(txt)
    if a.p: print(txt)
    if w in reg.fns:
        if info['missing_at'] or info['missing_loops']: print('  UNUSED annotations', info['missing_at'], info['missing_loops'])
        if a.n: print(w, 'loops', [(l['no'], l['line'], l['kind']) for l in info['loops']], 'used', info['used'], 'vars', info['vars'])
    if a.n: 
        r = os.system('why3 prove --type-only -L /verif/why %s' % p); continue
    try: gs = prove.why3_dump(p, W)
    except RuntimeError as e: print('WHY3', w, e); allok = False; continue
    for g in gs: g['fn'] = w
    allgoals += gs
t0 = time.time()
if allgoals:
    st = prove.STAGES if not a.t else [(s, a.t) for s, _ in prove.STAGES]
    if a.q: st = [('z3n', 3), ('cvc5', 5)]
    prove.prove_all(allgoals, hints, st)
    for w in names:
        gs = [g for g in allgoals if g['fn'] == w]
        if not gs: continue
        bad = [g for g in gs if not g['ok']]
        print('%-30s %d/%d proved  %.1fs  max %.1fs' % (w, len(gs) - len(bad), len(gs), sum(g['time'] for g in gs), max(g.get('ptime', 0) for g in gs)))
        for g in gs:
            if g['ok'] and g['time'] > 4: print('   SLOW', g['name'], g['expl'], 'proved', g['by'], g['ptime'], 'total %.1f' % g['time'])
        for g in bad: print('   FAIL', g['name'], g['expl'], [(x[0], x[2], x[3]) for x in g['tries']])
        for g in gs:
            if g['ok']: hints[g['name']] = (g['by'], round(g['ptime'], 2))
    json.dump(hints, open(hp, 'w'))
    print('wall %.1f' % (time.time() - t0))
