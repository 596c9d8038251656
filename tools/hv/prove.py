"""SMT generation through Why3 and a portfolio of provers."""
import os, re, subprocess, json, time, shutil, sys, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.environ.get('HV_VERIF') or os.path.abspath(os.path.join(os.path.dirname(__file__), '..', '..'))
WHY = os.path.join(VERIF, 'why')
NCPU = int(os.environ.get('HV_JOBS', '8'))

SOLVERS = {
    'z3n': lambda t, f: ['z3-new', '-T:%d' % t, 'smt.auto_config=false', 'smt.mbqi=false', 'smt.arith.solver=2', f],
    'z3d': lambda t, f: ['z3-new', '-T:%d' % t, f],
    'z3o': lambda t, f: ['z3', '-T:%d' % t, 'smt.auto_config=false', 'smt.mbqi=false', f],
    'cvc5': lambda t, f: ['cvc5', '--tlimit=%d' % (t * 1000), f],
    'cvc5e': lambda t, f: ['cvc5', '--tlimit=%d' % (t * 1000), '--enum-inst', f],
    'cvc5n': lambda t, f: ['cvc5', '--tlimit=%d' % (t * 1000), '--no-e-matching', '--enum-inst', f],
}
STAGES = [('z3n', 3), ('cvc5', 6), ('z3o', 6), ('z3d', 8), ('cvc5e', 12), ('z3n', 20)]

def why3_dump(mlw, outdir):
    """-> list of goals [{name, expl, smt}] or raises"""
    base = os.path.basename(mlw)[:-4]
    od = os.path.join(outdir, 'smt_' + base); lo = os.path.join(outdir, 'lab_' + base)
    for d in (od, lo):
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
    r = subprocess.run(['why3', 'prove', '-L', WHY, '-D', os.path.join(WHY, 'drv', 'hv.drv'), '-a', 'split_vc', '-o', od, mlw], capture_output=True, text=True)
    if r.returncode != 0: raise RuntimeError('why3: ' + (r.stdout + r.stderr)[-3000:])
    r2 = subprocess.run(['why3', 'prove', '-L', WHY, '-D', os.path.join(WHY, 'drv', 'hvlabels.drv'), '-a', 'split_vc', '-o', lo, mlw], capture_output=True, text=True)
    if r2.returncode != 0: raise RuntimeError('why3 labels: ' + (r2.stdout + r2.stderr)[-3000:])
    gs = []
    def key(n):
        m = re.match(r'(.*?)(\d*)\.\w+$', n); return (m.group(1), int(m.group(2) or 0))
    a = sorted(os.listdir(od), key=key); b = sorted(os.listdir(lo), key=key)
    if [os.path.splitext(x)[0] for x in a] != [os.path.splitext(x)[0] for x in b]: raise RuntimeError('label mismatch')
    for x, y in zip(a, b):
        t = open(os.path.join(lo, y)).read()
        g = t[t.rindex('\ngoal '):]
        ex = re.findall(r'\[@expl:([^\]]*)\]', g)
        ex = [e for e in ex if not e.startswith('VC for')]
        p = os.path.join(od, x)
        filter_smt(p)
        gs.append(dict(name=os.path.splitext(x)[0], expl=' / '.join(dict.fromkeys(ex)) or 'obligation', smt=p, lab=os.path.join(lo, y)))
    return gs

def split_sexprs(t):
    out = []; i = 0; n = len(t); d = 0; st = None
    while i < n:
        c = t[i]
        if c == ';':
            j = t.find('\n', i); i = n if j < 0 else j
        elif c == '"':
            j = t.index('"', i + 1); i = j
        elif c == '|':
            j = t.index('|', i + 1); i = j
        elif c == '(':
            if d == 0: st = i
            d += 1
        elif c == ')':
            d -= 1
            if d == 0: out.append(t[st:i + 1])
        i += 1
    return out

DROP = re.compile(r'\(uni\b|\buni\)|\bty\b|\(sort ')
def filter_smt(p):
    """drops hypotheses (never the goal) that only concern the unused polymorphic encoding: sound, weaker hypotheses"""
    t = open(p).read()
    L = split_sexprs(t)
    keep = []
    na = [i for i, s in enumerate(L) if s.startswith('(assert')]
    last = na[-1]
    syms_removed = set()
    for i, s in enumerate(L):
        if s.startswith('(assert') and i != last:
            if re.search(r'[( ](uni|ty)[) ]', s) or ' uni)' in s: continue
            if ';;' in s: pass
        keep.append(s)
    open(p, 'w').write('\n'.join(keep) + '\n')

def run_solver(s, t, f):
    t0 = time.time()
    try:
        w = 3 * t + 10      # the limit is on processor time, so that a loaded machine changes nothing; wall clock only as a backstop
        r = subprocess.run(['prlimit', '--cpu=%d:%d' % (t + 1, t + 2)] + SOLVERS[s](w, f), capture_output=True, text=True, timeout=w + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'error'
        if r.returncode < 0: o = 'timeout'
        if o not in ('unsat', 'sat', 'unknown', 'timeout'): o = 'error ' + (r.stdout + r.stderr)[:200] if 'interrupted' not in r.stdout + r.stderr else 'timeout'
    except subprocess.TimeoutExpired: o = 'timeout'
    return o, time.time() - t0

def prove_goal(g, stages, hint=None, deadline=None):
    st = list(stages)
    if hint:
        k = [x for x in st if x[0] == hint[0]]
        st = [(hint[0], max(int(hint[1] * 4) + 2, 5))] + [x for x in st if x[0] != hint[0] or x[1] > hint[1] * 4 + 2]
    g['tries'] = g.get('tries', [])
    for s, t in st:
        if deadline and time.time() > deadline: g['tries'].append(('deadline', 0, 'not tried', 0)); break
        o, dt = run_solver(s, t, g['smt'])
        g['tries'].append((s, t, o, round(dt, 2)))
        g['time'] = g.get('time', 0) + dt
        if o == 'unsat':
            g['by'] = s; g['ok'] = True; g['ptime'] = dt; return True
    g['ok'] = False
    return False

def prove_all(goals, hints, stages=None, jobs=NCPU, progress=None, deadline=None):
    stages = stages or STAGES
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda g: prove_goal(g, stages, hints.get(hkey(g)), deadline), goals))
def hkey(g): return g['name']
