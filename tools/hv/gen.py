"""Specification registry and generation of the Why3 files (one per function under contract)."""
import os, re, json, subprocess, sys, importlib.util, glob, difflib
from translate import *
import ext

VERIF = os.environ.get('HV_VERIF') or os.path.abspath(os.path.join(os.path.dirname(__file__), '..', '..'))
REPO = os.environ.get('HV_REPO', '/repo')
FLAGS = ['-std=c++17', '-I%s/include' % REPO, '-I%s/lib/include' % REPO, '-I%s/include/higra' % REPO, '-w']

class Reg:
    def __init__(s):
        s.theories = {}      # name -> dict(text, recs, deps)
        s.lemmas = {}        # name -> dict
        s.fns = {}           # why -> spec
        s.short = []         # (qualified name or regex$, short)
        s.props = {}
        s.order = []
    def theory(s, name, text, recs=(), deps=()):
        s.theories[name] = dict(name=name, text=text, recs=list(recs), deps=list(deps)); s.order.append(name)
    def lemma(s, name, params, requires=(), ensures=(), body='()', rec=False, variant=None, use=(), lemmas=(), ret='unit', pre=''):
        s.lemmas[name] = dict(name=name, params=params, requires=list(requires), ensures=list(ensures), body=body, rec=rec, variant=variant, use=list(use), lemmas=list(lemmas), ret=ret, pre=pre)
    def fn(s, q, why, sig=None, use=(), lemmas=(), **kw):
        d = dict(q=q, why=why, sig=sig, use=list(use), lemmas=list(lemmas)); d.update(kw)
        if why in s.fns: raise Exception('duplicate ' + why)
        s.fns[why] = d
        return d
    def short_name(s, q, n): s.short.append((q, n))
    def prop(s, pid, fns, lemmas=(), **kw):
        s.props[pid] = dict(fns=list(fns), lemmas=list(lemmas), **kw)

REG = None
def load_specs(d=None):
    global REG
    REG = Reg()
    import hvspec
    hvspec.R = REG
    g = {'R': REG, 'theory': REG.theory, 'lemma': REG.lemma, 'fn': REG.fn, 'short': REG.short_name, 'prop': REG.prop}
    for p in sorted(glob.glob(os.path.join(d or os.path.join(VERIF, 'specs'), '*.py'))):
        exec(compile(open(p).read(), p, 'exec'), g)
    check_acyclic(REG)
    return REG

def check_acyclic(reg):
    # a lemma may only rest on lemmas that do not rest on it (its own recursion is checked by its variant)
    state = {}
    def visit(l, path):
        if state.get(l) == 2: return
        if state.get(l) == 1: raise Exception('circular lemmas: ' + ' -> '.join(path + [l]))
        state[l] = 1
        for x in reg.lemmas[l]['lemmas']:
            if x != l: visit(x, path + [l])
        state[l] = 2
    for l in reg.lemmas: visit(l, [])

class ExtractError(Exception): pass
def extract(out, src=None, roots=None):
    src = src or os.path.join(VERIF, 'units', 'all.cpp')
    cmd = [os.path.join(VERIF, 'build', 'hvx'), src, out] + (roots or ['.*hg::.*']) + ['--'] + FLAGS
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode != 0 or not os.path.exists(out): raise ExtractError(r.stdout[-2000:] + r.stderr[-4000:])
    return json.load(open(out))

class Mapped:
    """which extracted function each spec denotes"""
    def __init__(s, reg, dump):
        s.reg = reg; s.ctx = Ctx(dump, reg.short)
        s.by_why = {}; s.by_fid = {}; s.missing = {}
        names = {}
        for f in dump['functions']: names.setdefault(strip_targs(f['name']), []).append(f)
        for w, sp in reg.fns.items():
            c = names.get(sp['q'], [])
            if sp['sig']:
                c = [f for f in c if re.search(sp['sig'], s.sigof(f))]
            if len(c) != 1:
                s.missing[w] = '%d candidates for %s%s' % (len(c), sp['q'], ''.join('\n      ' + s.sigof(f) for f in c)); continue
            s.by_why[w] = c[0]; s.by_fid[c[0]['id']] = sp
    def sigof(s, f):
        return ('const ' if f.get('const') else '') + f['name'] + '(' + '; '.join(s.ctx.ts(p['ty']) for p in f['params']) + ')'

def rename_params(f, spec):
    pn = spec.get('params_names')
    return

def indent(t, n=2): return '\n'.join(' ' * n + l for l in t.split('\n'))

class Gen:
    def __init__(s, reg, mapped, baseline=None):
        s.reg = reg; s.m = mapped; s.base = baseline or {}
    # ---- declarations common to a file
    def theory_closure(s, use):
        out = []
        def add(t):
            if t in out: return
            if t not in s.reg.theories: raise Exception('unknown theory ' + t)
            for d in s.reg.theories[t]['deps']: add(d)
            out.append(t)
        for u in use: add(u)
        return out
    def need_recs(s, ths):
        T = Types(s.m.ctx)
        for t in ths:
            for r in s.reg.theories[t]['recs']:
                full = r if r in s.m.ctx.recs else next((k for k in s.m.ctx.recs if re.fullmatch(r, k)), None)
                if full is None: raise Unsupported('record %s not found' % r)
                T.rec(full)
    def header(s, modname, use, extra_txt=''):
        ths = s.theory_closure(use)
        s.need_recs(ths)
        L = ['module %s' % modname, '  use hv.HV', '  use map.Map as Map']
        return L, ths
    def recs_text(s):
        T = Types(s.m.ctx); L = []
        for r in s.m.ctx.recorder:
            L.append('  type %s = { %s }' % (r, '; '.join('%s: %s' % (T.fld(r, f), wty(t)) for f, t in s.m.ctx.recdefs[r]) or 'dummy_%s: int' % r))
        return L
    def lemma_val(s, l):
        d = s.reg.lemmas[l]
        L = ['  val ghost %s %s : %s' % (l, d['params'] or '()', d['ret'])]
        for r in d['requires']: L.append('    requires { [@expl:precondition of lemma %s] %s }' % (l, r))
        for r in d['ensures']: L.append('    ensures { %s }' % r)
        return L
    def lemma_closure(s, names):
        return [n for n in s.reg.lemmas if n in names]
    def use_of_lemma(s, l): return s.reg.lemmas[l]['use']
    def lemma_file(s, l):
        d = s.reg.lemmas[l]
        use = list(d['use'])
        for x in d['lemmas']: use += s.reg.lemmas[x]['use']
        s.need_recs(s.theory_closure(use))
        L = ['module L_%s' % l, '  use hv.HV', '  use map.Map as Map'] + s.recs_text()
        for t in s.theory_closure(use): L.append(indent(s.reg.theories[t]['text'].strip('\n')))
        for x in d['lemmas']: L += s.lemma_val(x)
        if d['pre']: L.append(indent(d['pre']))
        L.append('  let %s ghost %s %s : %s' % ('rec' if d['rec'] else '', l, d['params'] or '()', d['ret']))
        for i, r in enumerate(d['requires']): L.append('    requires { %s }' % r)
        for i, r in enumerate(d['ensures']): L.append('    ensures { [@expl:lemma conclusion %d] %s }' % (i + 1, r))
        if d['variant']: L.append('    variant { %s }' % d['variant'])
        L.append('  = ' + d['body'])
        L.append('end')
        return '\n'.join(L) + '\n'
    def contract_val(s, w):
        sp = s.reg.fns[w]; f = s.m.by_why[w]
        tr = FnTrans(s.m.ctx, {}, ext, sp); s.prep(tr, w)
        ps = tr.param_decls(f)
        rt = tr.ret_type(f)
        if rt is None: raise Unsupported('return type of %s' % w)
        L = ['val %s %s : %s' % (w, ' '.join('(%s%s: %s)' % ('ref ' if m else '', n, wty(t)) for n, t, m, u in ps) or '()', wty(rt))]
        L += ['  ' + c for c in tr.clause_lines(f, ps, sp)]
        if is_vec(rt): L.append('  ensures { 0 <= result.len }')
        wr = [n for n, t, m, u in ps if m]
        if wr: L.append('  writes { %s }' % ', '.join(wr))
        if sp.get('raises') is not None: L.append('  raises { Hg_error -> %s }' % (sp['raises'] or 'true'))
        return ['  ' + l for l in L]
    def contracts_for(s, w):
        return {fid: sp for fid, sp in s.m.by_fid.items() if sp['why'] != w or True}
    def prep(s, tr, w):
        b = s.base.get(w)
        if b: tr.pnames = b['params']
    def translate(s, w, contracts):
        sp = s.reg.fns[w]; f = s.m.by_why[w]
        if sp.get('assumed'): raise Unsupported('assumed contract: ' + sp['assumed'])
        def go(rename):
            tr = FnTrans(s.m.ctx, contracts, ext, sp)
            s.prep(tr, w); tr.rename = rename
            return tr, tr.fn_text(f)
        b = s.base.get(w)
        if not b: return go({})
        # first pass with an empty loop specification to learn the variables, second with the baseline names
        tr0 = FnTrans(s.m.ctx, contracts, ext, dict(sp, loops={i: {'noterm': True} for i in range(1, 60)}, at={}))
        s.prep(tr0, w); tr0.rename = {}
        tr0.fn_text(f)
        ren = align(b['vars'], tr0.varlog)
        return go(ren)
    def fn_file(s, w):
        sp = s.reg.fns[w]
        contracts = dict(s.m.by_fid)
        own = s.m.by_why[w]['id']
        if not sp.get('rec'): contracts.pop(own, None)
        tr, txt = s.translate(w, contracts)
        used = [u for u in tr.used]
        use = list(sp['use'])
        for u in used: use += s.reg.fns[u]['use']
        alltext = txt + json.dumps(sp.get('at', {}))
        lem = [l for l in s.reg.lemmas if re.search(r'\b%s\b' % re.escape(l), txt)]
        for l in lem: use += s.reg.lemmas[l]['use']
        vals = []
        for u in used: vals += s.contract_val(u)
        s.need_recs(s.theory_closure(use))
        L = ['module F_%s' % w, '  use hv.HV', '  use map.Map as Map'] + s.recs_text()
        for t in s.theory_closure(use): L.append(indent(s.reg.theories[t]['text'].strip('\n')))
        for l in lem: L += s.lemma_val(l)
        L += vals
        if sp.get('pre'): L.append(indent(sp['pre'].strip('\n')))
        for n, t in tr.excs:
            if n != 'Cont': L.append('  exception %s%s' % (n, ' ' + t if t else ''))
        L.append(indent(txt))
        L.append('end')
        missing_at = [k for k in sp.get('at', {}) if k not in tr.anchor_hits]
        missing_loops = [k for k in sp.get('loops', {}) if k > tr.loopno]
        info = dict(used=used, lemmas=lem, vars=tr.varlog, loops=tr.loops, nloops=tr.loopno, missing_at=missing_at, missing_loops=missing_loops,
                    params=[p['name'] for p in s.m.by_why[w]['params']], file=s.m.by_why[w]['file'], line=s.m.by_why[w]['l'], line2=s.m.by_why[w]['l2'], cpp=s.m.sigof(s.m.by_why[w]), inlined=sorted(tr.inlined))
        return '\n'.join(L) + '\n', info

def align(base, cur):
    """rename map current variable -> baseline variable (by position among variables of equal type)"""
    bn = [n for n, t in base]; cn = [n for n, t in cur]
    if bn == cn: return {}
    sm = difflib.SequenceMatcher(a=[t + ' ' + n for n, t in base], b=[t + ' ' + n for n, t in cur], autojunk=False)
    ren = {}
    for op, i1, i2, j1, j2 in sm.get_opcodes():
        if op != 'replace': continue
        bs = base[i1:i2]; cs = cur[j1:j2]
        # match in order the variables of same type whose names vanished
        bs = [x for x in bs if x[0] not in cn]; cs = [x for x in cs if x[0] not in bn]
        for n, t in bs:
            for k, (m, t2) in enumerate(cs):
                if t2 == t:
                    ren[m] = n; cs.pop(k); break
    return ren
