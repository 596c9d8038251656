#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on /repo's current working tree (see DESIGN.md)."""
import sys, os, json, time, subprocess, hashlib, shutil, re, threading
V = os.path.dirname(os.path.abspath(__file__))
os.environ['HV_VERIF'] = V
sys.path.insert(0, os.path.join(V, 'tools', 'hv'))
import gen, prove
from translate import Unsupported
from concurrent.futures import ThreadPoolExecutor

REPO = gen.REPO
HFLAGS = ['-std=c++17', '-O1', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS', '-DXTENSOR_ENABLE_ASSERT',
          '-I%s/include' % REPO, '-I%s/lib/include' % REPO, '-I%s/include/higra' % REPO, '-w']
TRUSTED = [
    'Why3 1.6 verification condition generation and transformations',
    'clang 18 front end and the extraction/translation of tools/ (C++ AST -> WhyML, statement by statement)',
    'contracts of std:: and xt:: primitives in why/hv.mlw and tools/hv/ext.py (subscript, push_back, stable_sort, arange, index_view, ...)',
    'integer arithmetic is mathematical (64-bit signed overflow not modelled; unsigned wrap-around, narrowing and negative-to-unsigned conversions are obligations)',
    'floating point values are modelled as real numbers (no NaN, no rounding); infinity/max as uninterpreted constants',
    'xtensor lazy expressions are evaluated eagerly; arguments do not alias unless stated; 1-dimensional (scalar) instantiations; TBB disabled',
]

def log(*a):
    print(*a, flush=True)

def build_tool():
    out = os.path.join(V, 'build', 'hvx')
    src = os.path.join(V, 'tools', 'extract', 'extract.cpp')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        subprocess.run(['bash', os.path.join(V, 'tools', 'extract', 'build.sh')], check=True)

class Harness:
    def __init__(s, prop, src, wd, seed):
        s.src = os.path.join(V, 'harness', src); s.exe = os.path.join(wd, 'harness'); s.seed = seed; s.prop = prop; s.err = None; s.wd = wd
        s.stats = []
    def compile(s):
        t = time.time()
        r = subprocess.run(['g++'] + HFLAGS + ['-I' + os.path.join(V, 'harness'), s.src, '-o', s.exe], capture_output=True, text=True)
        if r.returncode: s.err = (r.stdout + r.stderr)[-4000:]
        s.ctime = time.time() - t
    def run(s, seconds, seed):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
        try: r = subprocess.run([s.exe, '--seed', str(seed), '--seconds', str(seconds)], capture_output=True, text=True, timeout=seconds + 60, env=env, errors='replace')
        except subprocess.TimeoutExpired: return dict(ok=None, out='harness timeout', seed=seed)
        out = r.stdout
        m = re.search(r'^FAIL case=(\d+) seed=(\d+)\nMSG (.*)\nINPUT (.*)$', out, re.M)
        if m: return dict(ok=False, case=int(m.group(1)), seed=int(m.group(2)), msg=m.group(3), input=m.group(4), stderr=r.stderr[:3000])
        m = re.search(r'^DONE cases=(\d+) distinct=(\d+)', out, re.M)
        if r.returncode == 0 and m: return dict(ok=True, cases=int(m.group(1)), distinct=int(m.group(2)), samples=re.findall(r'^SAMPLE (.*)$', out, re.M), seed=seed)
        return dict(ok=None, out=out[-1000:] + r.stderr[-2000:], seed=seed)
    def parallel(s, seconds, n, seed0):
        with ThreadPoolExecutor(n) as ex: return list(ex.map(lambda i: s.run(seconds, seed0 + i), range(n)))

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay': return replay(prop, sys.argv[3])
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
    t0 = time.time()
    wd = os.path.join(V, 'build', 'run', prop)
    if os.path.isdir(wd): shutil.rmtree(wd)
    os.makedirs(wd); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    replays = os.path.join(V, 'build', 'replay'); os.makedirs(replays, exist_ok=True)
    build_tool()
    reg = gen.load_specs()
    P = reg.props[prop]
    base = json.load(open(os.path.join(V, 'specs', 'baseline.json'))) if os.path.exists(os.path.join(V, 'specs', 'baseline.json')) else {}
    hints = json.load(open(os.path.join(V, 'specs', 'hints.json'))) if os.path.exists(os.path.join(V, 'specs', 'hints.json')) else {}
    H = Harness(prop, P['harness'], wd, seed)
    early = []
    def hfirst():
        H.compile()
        if not H.err: early.append(H.run(4, seed * 1000 + 99))
    hthread = threading.Thread(target=hfirst); hthread.start()

    problems = []      # annotation does not fit / outside the verifier's reach -> bounded
    goals = []; infos = {}; closure = []; lemmas = []; assumed = []
    try:
        dump_path = os.path.join(wd, 'dump.json')
        dump = gen.extract(dump_path)
        m = gen.Mapped(reg, dump)
    except gen.ExtractError as e:
        hthread.join()
        log('ERROR: the sources do not compile in the extraction unit:\n' + str(e)[-3000:])
        if H.err: return 2
        problems.append(('extraction', str(e)[-500:])); m = None
    mlws = []
    if m is not None:
        todo = list(P['fns']); done = set(); ltodo = list(P['lemmas'])
        while todo:
            w = todo.pop(0)
            if w in done: continue
            if reg.fns[w].get('assumed'): assumed.append('%s: %s' % (w, reg.fns[w]['assumed'])); done.add(w); continue
            done.add(w); closure.append(w)
            if w in m.missing: problems.append((w, 'function not found in the sources: ' + m.missing[w].split('\n')[0])); continue
            try:
                m.ctx.recname.clear(); m.ctx.recdefs.clear(); m.ctx.recorder.clear()
                G = gen.Gen(reg, m, base.get('fns', {}))
                txt, info = G.fn_file(w)
            except Unsupported as e:
                problems.append((w, 'outside the translated subset: %s' % e)); continue
            except (KeyError, IndexError, AttributeError, TypeError) as e:
                problems.append((w, 'translation: %r' % e)); continue
            infos[w] = info; todo += info['used']; ltodo += info['lemmas']
            b = base.get('fns', {}).get(w)
            if b and b['nloops'] != info['nloops']: problems.append((w, 'the loop structure changed (%d loops, annotated for %d)' % (info['nloops'], b['nloops']))); continue
            if info['missing_at'] or info['missing_loops']: problems.append((w, 'annotation points disappeared: %s %s' % (info['missing_at'], info['missing_loops']))); continue
            p = os.path.join(wd, w + '.mlw'); open(p, 'w').write(txt); mlws.append((w, p))
        ldone = set()
        while ltodo:
            l = ltodo.pop(0)
            if l in ldone: continue
            ldone.add(l); lemmas.append(l)
            try:
                m.ctx.recname.clear(); m.ctx.recdefs.clear(); m.ctx.recorder.clear()
                G = gen.Gen(reg, m, base.get('fns', {})); txt = G.lemma_file(l)
            except Unsupported as e: problems.append((l, str(e))); continue
            p = os.path.join(wd, l + '.mlw'); open(p, 'w').write(txt); mlws.append((l, p))
            ltodo += reg.lemmas[l]['lemmas']
        def dmp(x):
            w, p = x
            try:
                gs = prove.why3_dump(p, wd)
                for g in gs: g['fn'] = w; g['hash'] = hashlib.sha256(open(g['smt'], 'rb').read()).hexdigest()[:16]
                return gs
            except RuntimeError as e:
                return (w, 'the annotations do not typecheck against the code: ' + re.sub(r'/\S*/', '', str(e))[:400])
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(dmp, mlws):
                if isinstance(r, tuple): problems.append(r)
                else: goals += r
    # every file is scanned for unproved assumptions
    for w, p in mlws:
        t = open(p).read()
        if re.search(r'\b(axiom|assume)\b', re.sub(r'\(\*.*?\*\)', '', t, flags=re.S)): problems.append((w, 'assumption in generated file'))
    log('%s: %d functions, %d lemmas, %d obligations%s' % (prop, len(closure), len(lemmas), len(goals), ', %d outside reach' % len(problems) if problems else ''))
    tp = time.time()
    bh = base.get('hashes', {})
    hthread.join()
    cx0 = next((r for r in early if r['ok'] is False), None)     # a failing input on the real code: the proof only documents which obligations fail
    unchanged = lambda g: bh.get(g['name']) == g['hash']
    goals.sort(key=lambda g: not unchanged(g))
    prove.prove_all(goals, hints.get('goals', {}), deadline=tp + (90 if cx0 else 600 if all(map(unchanged, goals)) else 330))
    failed = [g for g in goals if not g['ok']]
    res = []
    first = P.get('seconds', 10) if tier == 'quick' else 120
    suspicious = bool(problems or failed)
    if cx0: res = [cx0]
    elif not H.err:
        res = H.parallel(first, (4 if tier == 'quick' else 8) if not suspicious else 7, seed * 1000)
        if suspicious and all(r['ok'] for r in res): res += H.parallel(100 if tier == 'quick' else 300, 7, seed * 1000 + 500)
    if failed and not any(r['ok'] is False for r in res):
        nf = len(failed)
        # no failing input: retry with long limits before an obligation is reported
        L = [(s, 40) for s in ('z3n', 'cvc5', 'z3o', 'z3d', 'cvc5e')]
        todo = failed if nf <= 16 else (failed[:16] + [g for g in failed[16:] if unchanged(g)])
        prove.prove_all(todo, {}, L, jobs=8, deadline=time.time() + (200 if tier == 'quick' else 1200))
        failed = [g for g in goals if not g['ok']]
    same = [g for g in failed if bh.get(g['name']) == g['hash']]
    changed = [g for g in failed if g not in same]
    solver_time = sum(g.get('time', 0) for g in goals)
    log('proof: %d/%d discharged in %.1fs (solver time %.1fs)' % (len(goals) - len(failed), len(goals), time.time() - tp, solver_time))
    for w, why in problems: log('  not decided by proof: %s: %s' % (w, why))
    for g in failed[:20]: log('  failed obligation: %s: %s [%s]' % (g['fn'], g['expl'], g['name']))
    if H.err:
        log('harness does not compile:\n' + H.err[-1500:])
        if not failed: log('ERROR: harness'); return 2
    cx = next((r for r in res if r['ok'] is False), None)
    broken = [r for r in res if r['ok'] is None]
    cases = sum(r['cases'] for r in res if r['ok']); distinct = sum(r['distinct'] for r in res if r['ok'])
    samples = [x for r in res if r['ok'] for x in r['samples']][:3]
    by = {}
    for g in goals:
        if g['ok']: by[g['by']] = by.get(g['by'], 0) + 1
    bounded = [dict(function=w, reason=why) for w, why in problems] + [dict(part=x, reason='stated bound: exhaustive small instances and seeded random instances of the harness') for x in P.get('bounded', [])]
    proof_ok = not problems and not failed
    cov = dict(obligations=len(goals), discharged=len(goals) - len(failed), checker_cmd='python3 check.py %s  (why3 prove -a split_vc -> SMT-LIB -> z3-new 4.x / z3 4.8.12 / cvc5 1.1.2)' % prop,
               trusted_base=TRUSTED + P.get('trusted', []) + assumed, discharged_by=by, solver_time_s=round(solver_time, 1),
               functions_under_contract=[dict(contract=w, cpp=infos[w]['cpp'], at='%s:%s-%s' % (infos[w]['file'], infos[w]['line'], infos[w]['line2']), obligations=len([g for g in goals if g['fn'] == w]),
                                              loops=infos[w]['nloops'], inlined=infos[w]['inlined']) for w in closure if w in infos],
               lemmas=lemmas, bounded_not_proved=bounded, harness_cases=cases, harness_distinct=distinct)
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if proof_ok else 'other', coverage=cov, assumptions=TRUSTED + P.get('trusted', []) + assumed + P.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=0)
    if not proof_ok:
        cov.update(evaluations=cases, distinct_nontrivial=distinct, samples=samples, explanation='bounded: some functions could not be decided by the verifier on this tree (see bounded_not_proved); their behaviour was searched with the executable contracts of harness/%s' % P['harness'])
    rc = 0
    rp = os.path.join(replays, prop + '.json')
    if cx is not None:
        json.dump(dict(property=prop, kind='input', harness=P['harness'], case=cx['case'], seed=cx['seed'], message=cx['msg'], input=cx['input'], stderr=cx['stderr'],
                       failed_obligations=['%s: %s' % (g['fn'], g['expl']) for g in failed], replay='python3 check.py %s --replay %s' % (prop, rp)), open(rp, 'w'), indent=1)
        log('failing input: %s\n  %s' % (cx['input'][:600], cx['msg'][:400]))
        log('VIOLATION property=%s replay=%s' % (prop, rp)); rc = 1
    elif broken:
        log('ERROR: harness run: ' + broken[0]['out'][-1500:]); rc = 2
    elif changed:
        json.dump(dict(property=prop, kind='obligation', failed_obligations=[dict(function=g['fn'], obligation=g['expl'], name=g['name'], provers=g['tries'], at=infos.get(g['fn'], {}).get('cpp'),
                       task=open(g['lab']).read()[-6000:]) for g in changed[:10]]), open(rp, 'w'), indent=1)
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); rc = 1
    elif same:
        log('ERROR: provers did not answer on unchanged obligations (resources?)'); rc = 2
    ev['violations'] = 1 if rc == 1 else 0
    ev['wall_s'] = round(time.time() - t0, 1)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in known(prop): log('KNOWN-FINDING: property=%s %s' % (prop, k))
    log('%s %s in %.1fs (harness: %d cases, %d distinct)' % (prop, {0: 'holds' if proof_ok else 'holds on everything explored (bounded)', 1: 'VIOLATED', 2: 'no answer'}[rc], time.time() - t0, cases, distinct))
    if os.environ.get('HV_KEEP') is None: shutil.rmtree(wd)
    return rc

def known(prop):
    p = os.path.join(V, 'known_findings.txt')
    if not os.path.exists(p): return []
    return [m.group(1) for l in open(p) for m in [re.match(r'finding: property=%s (.*)' % prop, l)] if m]

def replay(prop, path):
    d = json.load(open(path))
    if d['kind'] != 'input':
        print(json.dumps(d, indent=1)[:8000]); return 1
    wd = os.path.join(V, 'build', 'run', prop + '_replay'); os.makedirs(wd, exist_ok=True)
    H = Harness(prop, d['harness'], wd, d['seed']); H.compile()
    if H.err: print(H.err); return 2
    r = subprocess.run([H.exe, '--seed', str(d['seed']), '--case', str(d['case'])], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    return r.returncode

if __name__ == '__main__': sys.exit(main())
