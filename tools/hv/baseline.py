#!/usr/bin/env python3
"""(maintainer) records, on the unchanged tree, the names the annotations refer to and prover hints.  Never run by a check."""
import sys, os, json, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, prove
from translate import Unsupported
from concurrent.futures import ThreadPoolExecutor
V = gen.VERIF; W = '/tmp/hvb'; os.makedirs(W, exist_ok=True)
bp = V + '/specs/baseline.json'; hp = V + '/specs/hints.json'
base = json.load(open(bp)) if os.path.exists(bp) else {'fns': {}, 'hashes': {}}
hints = json.load(open(hp)) if os.path.exists(hp) else {'goals': {}}
dump = gen.extract(W + '/d.json'); reg = gen.load_specs(); m = gen.Mapped(reg, dump)
names = sys.argv[1:] or list(reg.lemmas) + list(reg.fns)
ex = []
for x in names:
    if x in reg.props: ex += reg.props[x]['lemmas'] + reg.props[x]['fns']
    else: ex.append(x)
names = list(dict.fromkeys(ex))
goals = []; todo = list(names); seen = set()
while todo:
    w = todo.pop(0)
    if w in seen or reg.fns.get(w, {}).get('assumed'): continue
    seen.add(w)
    m.ctx.recname.clear(); m.ctx.recdefs.clear(); m.ctx.recorder.clear()
    G = gen.Gen(reg, m)
    if w in reg.lemmas: txt = G.lemma_file(w); todo += reg.lemmas[w]['lemmas']
    else:
        txt, info = G.fn_file(w)
        base['fns'][w] = dict(params=info['params'], vars=info['vars'], nloops=info['nloops']); todo += info['used'] + info['lemmas']
    p = '%s/%s.mlw' % (W, w); open(p, 'w').write(txt)
    gs = prove.why3_dump(p, W)
    for g in gs:
        g['fn'] = w; g['hash'] = hashlib.sha256(open(g['smt'], 'rb').read()).hexdigest()[:16]
    goals += gs
old = hints['goals']
todo = [g for g in goals if base['hashes'].get(g['name']) != g['hash']]
prove.prove_all(todo, old)
for g in todo:
    if g['ok']:
        base['hashes'][g['name']] = g['hash']; hints['goals'][g['name']] = [g['by'], round(g['ptime'], 2)]
    else: print('UNPROVED', g['fn'], g['expl'], g['name'])
live = {g['name'] for g in goals}
if not sys.argv[1:]:
    for d in (base['hashes'], hints['goals']):
        for k in list(d):
            if k not in live: del d[k]
    for k in list(base['fns']):
        if k not in reg.fns: del base['fns'][k]
json.dump(base, open(bp, 'w'), indent=0, sort_keys=True); json.dump(hints, open(hp, 'w'), indent=0, sort_keys=True)
print(len(goals), 'goals', len(todo), 'proved now;', sum(1 for g in todo if not g['ok']), 'failed')
