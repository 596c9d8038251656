# folds of the children of a node, in index order
def _fold(name, init, step, x=True):
    a = '(p: vec int) (x: vec real) (v: int) (i: int)' if x else '(p: vec int) (v: int) (i: int)'
    c = 'p x v' if x else 'p v'
    return 'let rec ghost function %s %s : %s variant { i } = if i <= 0 then %s else if p.elts (i - 1) = v then %s else %s %s (i - 1)\n' % (
        name, a, 'real' if x is True else 'int', init, step.replace('REC', '(%s %s (i - 1))' % (name, c)), name, c)
FX = {'fsum': _fold('fsum', '0.0', 'x.elts (i - 1) +. REC'), 'fprod': _fold('fprod', '1.0', 'rmul (x.elts (i - 1)) REC'),
      'fmin': _fold('fmin', 'c_real_max', 'rmin (x.elts (i - 1)) REC'), 'fmax': _fold('fmax', 'c_real_lowest', 'rmax (x.elts (i - 1)) REC'),
      'bmin': _fold('bmin', '(-1)', '(let b = REC in if b = -1 then i - 1 else if x.elts (i - 1) <. x.elts b then i - 1 else b)', x=1),
      'bmax': _fold('bmax', '(-1)', '(let b = REC in if b = -1 then i - 1 else if x.elts (i - 1) >. x.elts b then i - 1 else b)', x=1)}
FN = {'nch': _fold('nch', '0', '1 + REC', x=0), 'firstc': _fold('firstc', '(-1)', '(if REC = -1 then i - 1 else REC)', x=0), 'lastc': _fold('lastc', '(-1)', 'i - 1', x=0)}
theory('folds', '''
function rmin (x y: real) : real = if y <. x then y else x
function rmax (x y: real) : real = if x <. y then y else x
(** number of children, first and last child, fold of a value over the children, first child of least / greatest value: children of index < i *)
(** the first k children of a list l of children lie below upto l k, the others not below hi_ l v k *)
function upto (l: vec int) (k: int) : int = if k = 0 then 0 else l[k - 1] + 1
function hi_ (l: vec int) (v k: int) : int = if k = l.len then v else l[k]
predicate no_child (p: vec int) (v a b: int) = forall u. a <= u < b -> p[u] <> v
''' + ''.join(FX.values()) + ''.join(FN.values()) + 'function bidx (b: int) (p: vec int) (v: int) : int = if b = -1 then -1 else nch p v b\n', deps=['tree'])
for f in FX:
    lemma('gap_' + f, '(p: vec int) (x: vec real) (v a b: int)', ['0 <= a <= b', 'no_child p v a b'], ['%s p x v a = %s p x v b' % (f, f)],
          body='if a < b then gap_%s p x v a (b - 1)' % f, rec=True, variant='b', use=['folds'])
    lemma('frame_' + f, '(p: vec int) (x y: vec real) (j: int)', ['forall u. 0 <= u < j -> x[u] = y[u]'], ['forall v i. i <= j -> %s p x v i = %s p y v i' % (f, f)] +
          (['forall v i. i <= j -> -1 <= %s p x v i < j \\/ %s p x v i = -1' % (f, f)] if f[0] == 'b' else []),
          body='if 0 < j then frame_%s p x y (j - 1)' % f, rec=True, variant='j', use=['folds'])
for f in FN:
    lemma('gap_' + f, '(p: vec int) (v a b: int)', ['0 <= a <= b', 'no_child p v a b'], ['%s p v a = %s p v b' % (f, f)],
          body='if a < b then gap_%s p v a (b - 1)' % f, rec=True, variant='b', use=['folds'])
for f in ('firstc', 'lastc'):
    lemma('range_' + f, '(p: vec int) (j: int)', [], ['forall v i. i <= j -> %s p v i = -1 \\/ 0 <= %s p v i < i /\\ p[%s p v i] = v' % (f, f, f)],
          body='if 0 < j then range_%s p (j - 1)' % f, rec=True, variant='(if j < 0 then 0 else j)', use=['folds'])
lemma('child_gap_', '(p: vec int) (nl: int) (ch: vec (vec int)) (pos: int -> int) (l: vec int) (v k: int)', ['parents_ok p nl', 'children_ok p nl ch pos', 'nl <= v < p.len', 'l = ch[v - nl]', '0 <= k <= l.len'],
      ['no_child p v (upto l k) (hi_ l v k)', '0 <= upto l k <= hi_ l v k <= v', 'k < l.len -> l[k] < v /\\ p[l[k]] = v'], 
      body='let w = v - nl in assert { lists_children p pos (w + nl) ch[w] }; assert { lists_children p pos v l }; assert { forall u. 0 <= u < p.len - 1 -> p[u] = v -> 0 <= pos u < l.len /\\ l[pos u] = u }', use=['folds'])
lemma('child_gap', '(p: vec int) (nl: int) (ch: vec (vec int)) (v k: int)', ['parents_ok p nl', 'exists pos. children_ok p nl ch pos', 'nl <= v < p.len', '0 <= k <= ch[v - nl].len'],
      ['no_child p v (upto ch[v - nl] k) (hi_ ch[v - nl] v k)', '0 <= upto ch[v - nl] k <= hi_ ch[v - nl] v k <= v', 'k < ch[v - nl].len -> ch[v - nl][k] < v /\\ p[ch[v - nl][k]] = v'], use=['folds'],
      body='let ghost pos = any (int -> int) ensures { children_ok p nl ch result } in child_gap_ p nl ch pos (ch.elts (v - nl)) v k', lemmas=['child_gap_'])

P, NL, NV = 'tree.tree_parents', 'tree.tree_num_leaves', 'tree.tree_parents.len'
# per accumulator: folds with / without values, run(v, i, o, X, extra) state after the children < i, fin(v, i, o, X), neutral value of a node without child, extra state fields
ACC = {}
for a, f, z in (('sum', 'fsum', '0.0'), ('prod', 'fprod', '1.0'), ('min', 'fmin', 'c_real_max'), ('max', 'fmax', 'c_real_lowest')):
    ACC[a] = dict(fx=[f], fn=[], run=lambda o, X, v, i, f=f: '%s[%s] = %s %s %s %s %s' % (o, v, f, P, X, v, i), st={}, neutral=z)
ACC['counter'] = dict(fx=[], fn=['nch'], run=lambda o, X, v, i: '%s[%s] = from_int (nch %s %s %s)' % (o, v, P, v, i), st={}, neutral='0.0')
ACC['mean'] = dict(fx=['fsum'], fn=['nch'], run=ACC['sum']['run'], fin=lambda o, X, v, i: '%s[%s] = (if nch %s %s %s = 0 then 0.0 else fsum %s %s %s %s /. from_int (nch %s %s %s))' % (o, v, P, v, i, P, X, v, i, P, v, i),
                   st={'m_counter': lambda c, X, v, i: '%s = nch %s %s %s' % (c, P, v, i)}, neutral='0.0', lem=['nch_sum0'])
ACC['last'] = dict(fx=[], fn=['lastc'], run=lambda o, X, v, i: '(lastc %s %s %s <> -1 -> %s[%s] = %s[lastc %s %s %s])' % (P, v, i, o, v, X, P, v, i), st={}, neutral=None)
for a, f, z in (('argmin', 'bmin', 'c_real_max'), ('argmax', 'bmax', 'c_real_lowest')):
    ACC[a] = dict(fx=[f], fn=['nch'], run=lambda o, X, v, i, f=f: '%s[%s] = from_int (bidx (%s %s %s %s %s) %s %s)' % (o, v, f, P, X, v, i, P, v),
                  st={'m_temp': lambda c, X, v, i, f=f, z=z: '(%s.len = 1 /\\ (%s)[0] = (if %s %s %s %s %s = -1 then %s else %s[%s %s %s %s %s]))' % (c, c, f, P, X, v, i, z, X, f, P, X, v, i),
                      'cur_index': lambda c, X, v, i: '%s = nch %s %s %s' % (c, P, v, i)}, neutral='(-. 1.0)', req='forall u. 0 <= u < %s -> XX[u] %s. %s' % ('NN', '<' if a == 'argmin' else '>', z))
ACC['first'] = dict(fx=[], fn=['firstc'], run=lambda o, X, v, i: '(firstc %s %s %s <> -1 -> %s[%s] = %s[firstc %s %s %s])' % (P, v, i, o, v, X, P, v, i),
                    st={'m_first': lambda c, X, v, i: '(%s = True <-> firstc %s %s %s = -1)' % (c, P, v, i)}, neutral=None, inner=True)
lemma('nch_sum0', '(p: vec int) (x: vec real) (v i: int)', ['0 <= i'], ['nch p v i >= 0', 'nch p v i = 0 -> fsum p x v i = 0.0'], body='if 0 < i then nch_sum0 p x v (i - 1)', rec=True, variant='i', use=['folds'])

COMB = {'plus': ('std::plus', '%s +. xinput[%s]'), 'mult': ('std::multiplies', 'rmul (%s) xinput[%s]'), 'fmin': ('fmin_', 'rmin (%s) xinput[%s]'), 'lmax': (None, 'rmax (%s) xinput[%s]')}
DX = r'xtensor_container<xt::uvector<double(?!.*xview)(?!.*lambda).*'
def acc_spec(kind, a, sig=None):
    kind, _, comb = kind.partition('_')
    A = ACC[a]; run = A['run']; fin = A.get('fin', run); par = kind == 'par'
    if comb: fin = lambda o, X, v, i: '%s[%s] = %s' % (o, v, COMB[comb][1] % ('%s %s %s %s %s' % (A['fx'][0], P, X, v, i), v))
    src = 'xinput' if par else 'xvertex_data'
    X = src if par else 'output'
    L = 'tree.tree_children[i_it_1 - %s]' % NL
    gaps = lambda v, lo, hi: ['gap_%s %s %s (%s) (%s) (%s)' % (f, P, X if par else 'o0', v, lo, hi) for f in A['fx']] + ['gap_%s %s (%s) (%s) (%s)' % (f, P, v, lo, hi) for f in A['fn']]
    frame = lambda o0, j: [] if par else ['range_%s %s (%s)' % (f, P, j) for f in A['fn'] if f != 'nch'] + ['frame_%s %s %s output (%s)' % (f, P, o0, j) for f in A['fx']]
    lemmas = ['gap_' + f for f in A['fx'] + A['fn']] + ['frame_' + f for f in A['fx']] * (not par) + ['child_gap'] + ['range_' + f for f in A['fn'] if f != 'nch'] + A.get('lem', [])
    extra = lambda pre, idx, v, i, Y: [g(pre + '_' + f + idx, Y, v, i) for f, g in A['st'].items()]
    leaf = lambda v: ('output[%s] = %s' % (v, A['neutral']) if A['neutral'] else 'true') if par else 'output[%s] = %s[%s]' % (v, src, v)
    leaves = 'forall v. 0 <= v < %s -> %s' % (NL, leaf('v'))
    Y2 = X if par else 'o0'
    fx0 = ['nch_sum0 %s %s i_it_1 i_it_1' % (P, Y2)] if a == 'mean' else []
    inv = {
     1: ['0 <= i_it <= %s' % NL, 'forall v. 0 <= v < i_it -> ' + leaf('v')],
     2: ['%s <= i_it_1 <= %s' % (NL, NV), leaves, 'forall v. %s <= v < i_it_1 -> %s' % (NL, fin('output', X, 'v', 'v'))],
     3: ['0 <= c_it <= c_end', 'acc_m_storage_begin = i_it_1', 'forall u. 0 <= u < i_it_1 -> output[u] = o0[u]',
         run('output', Y2, 'i_it_1', '(upto %s c_it)' % L)] + extra('acc', '', 'i_it_1', '(upto %s c_it)' % L, Y2),
     4: ['%s <= i_it_2 <= %s' % (NL, NV), leaves, 'forall v. %s <= v < i_it_2 -> %s' % (NL, run('output', X, 'v', '0')),
         'accs_m_storage_begin.len = i_it_2 - %s' % NL, 'forall w. 0 <= w < accs_m_storage_begin.len -> accs_m_storage_begin[w] = w + %s' % NL] +
        ['accs_%s.len = accs_m_storage_begin.len' % f for f in A['st']] + ['forall w. 0 <= w < accs_m_storage_begin.len -> ' + x for x in extra('accs', '[w]', '(w + %s)' % NL, '0', X)],
     5: ['0 <= i_it_3 <= %s - 1' % NV, leaves, 'forall v. %s <= v < i_it_3 -> %s' % (NL, fin('output', X, 'v', 'v')), 'forall v. %s <= v < %s -> i_it_3 <= v -> %s' % (NL, NV, run('output', X, 'v', 'i_it_3'))] +
        ['forall w. 0 <= w < accs_m_storage_begin.len -> ' + x for x in extra('accs', '[w]', '(w + %s)' % NL, '(if i_it_3 <= w + %s then i_it_3 else w + %s)' % (NL, NL), X)]}
    at = {'loop2.begin': ['let ghost o0 = output in'], 'loop2.end': frame('o0', 'i_it_1 - 1'),
          'loop3.begin': ['child_gap %s %s tree.tree_children i_it_1 c_it' % (P, NL)] + gaps('i_it_1', 'upto %s c_it' % L, '%s c_it' % ('hi_ (%s) i_it_1' % L)),
          'loop3.post': ['child_gap %s %s tree.tree_children i_it_1 (%s).len' % (P, NL, L)] + gaps('i_it_1', 'upto %s (%s).len' % (L, L), 'i_it_1') + fx0}
    if a == 'mean': at['loop5.post'] = ['nch_sum0 %s %s (%s - 1) (%s - 1)' % (P, X, NV, NV)]; at['loop5.begin'] = ['nch_sum0 %s %s i_it_3 i_it_3' % (P, X)]
    if not par: at['loop5.begin'] = at.get('loop5.begin', []) + ['let ghost o0 = output in']; at['loop5.end'] = frame('o0', 'i_it_3 - 1')
    if a[:3] == 'arg':
        for k in (1, 2): inv[k].append('acc_m_temp.len = 1')
    if (a == 'mean' or comb) and not par:
        at['decl:numl'] = ['let ghost ref o1 = output in']; at['loop5.post'] = at.get('loop5.post', []) + ['o1 <- output']; at['after:output:8'] = ['frame_%s %s o1 output (%s - 1)' % (A['fx'][0], P, NV)]
    q = 'hg::accumulate_' + {'par': 'parallel', 'seq': 'sequential', 'comb': 'and_combine_sequential'}[kind]
    inv = {k: dict(inv=v) for k, v in inv.items()}
    if A.get('inner'):
        inn = lambda k, s_, b, o: dict(inv=['%s <= %s <= %s + 1' % (o, s_, o), '%s = input_view + (%s - %s)' % (b, s_, o), 'forall u. u <> %s \\/ %s = %s -> output[u] = output_at%d[u]' % (o, s_, o, k),
                                          '%s = %s + 1 -> output[%s] = %s[input_view]' % (s_, o, o, 'output_at%d' % k if not par else X)], var='%s + 1 - %s' % (o, s_))
        inv[3]['inv'].append('acc_m_storage_end = i_it_1 + 1')
        for k in (4, 5): inv[k]['inv'].append('forall w. 0 <= w < accs_m_storage_begin.len -> accs_m_storage_end[w] = w + %s + 1' % NL)
        inv[4]['inv'].append('accs_m_storage_end.len = accs_m_storage_begin.len')
        inv = {1: inv[1], 2: inv[2], 3: inv[3], 4: inn(4, 's', 'value_begin', 'i_it_1'), 5: inv[4], 6: inv[5], 7: inn(7, 's_1', 'value_begin_1', 'p')}
        for k in ('loop5.begin', 'loop5.end'):
            if k in at: at[k.replace('5', '6')] = at.pop(k)
    fn(q, 'acc%s_%s' % (kind + comb, a), sig=sig or DX + 'accumulator_%s &' % a + ('.*' + (COMB[comb][0] or '') if comb else ''), use=['folds'], lemmas=lemmas, requires=['tree_ok tree', '%s.len = %s' % (src, NV if par else NL)] + ['xinput.len = ' + NV] * bool(comb) + ([A['req'].replace('XX', src).replace('NN', NV)] if 'req' in A else []),
       ensures=[('one value per node', 'result.len = ' + NV), ('leaves', leaves.replace('output', 'result')),
                ('each inner node: fold of its children', ('forall v. %s <= v < %s -> %s' % (NL, NV, fin('output', X, 'v', 'v'))).replace('output', 'result'))], at={k: v for k, v in at.items() if v}, loops=inv)
for a in ACC:
    acc_spec('par', a)
    if a[:3] != 'arg': acc_spec('seq', a)
for a in ('sum', 'max'):
    for c in ('plus', 'mult', 'fmin'): acc_spec('comb_' + c, a)

# --- propagators
theory('keep', '''
(** closest ancestor-or-self of v where the condition is false (the root counts as false) *)
let rec ghost function keep (p: vec int) (c: vec bool) (v: int) : int variant { p.len - v }
  = if v < 0 || p.len <= v then v else if p.elts v <= v || p.elts v >= p.len then v else if c.elts v then keep p c (p.elts v) else v
predicate kept (p: vec int) (c: vec bool) (v w: int) =
  anc p w v /\\ 0 <= w < p.len /\\ (w = p.len - 1 \\/ c[w] = False) /\\ forall b. anc p b v -> b < w -> c[b] = True
''', deps=['tree', 'anc'])
lemma('keep_props', '(p: vec int) (c: vec bool) (v: int)', ['parents_up p', '0 <= v < p.len'], ['kept p c v (keep p c v)'],
      body='if v <> p.len - 1 && c.elts v then begin keep_props p c (p.elts v); anc_trans p v (p.elts v); assert { forall b. anc p b v -> b <> v -> anc p b p[v] } end; anc_ge p v', rec=True, variant='p.len - v', use=['anc', 'keep'], lemmas=['anc_trans', 'anc_ge'])
NODEW = ['tree_ok tree', 'xinput.len = ' + NV]
pat = dict(use=['folds', 'keep'])
fn('hg::propagate_parallel', 'propar', sig=r'^(?!.*bool)', requires=NODEW, use=['tree'],
   ensures=[('one value per node', 'result.len = ' + NV), ('each node gets the value of its parent', 'forall v. 0 <= v < %s -> result[v] = xinput[%s[v]]' % (NV, P))],
   loops={1: dict(inv=['-1 <= i_it < %s' % NV, 'forall v. i_it < v < %s -> output[v] = xinput[%s[v]]' % (NV, P)])})
fn('hg::propagate_parallel', 'proparc', sig='bool', requires=NODEW + ['xcondition.len = ' + NV], use=['tree'],
   ensures=[('one value per node', 'result.len = ' + NV), ('value of the parent under the condition, own value otherwise', 'forall v. 0 <= v < %s -> result[v] = (if xcondition[v] = True then xinput[%s[v]] else xinput[v])' % (NV, P))],
   loops={1: dict(inv=['-1 <= i_it < %s' % NV, 'forall v. i_it < v < %s -> output[v] = (if xcondition[v] = True then xinput[%s[v]] else xinput[v])' % (NV, P)])})
for w, sig in (('proseq', r'uvector<double.*uvector<bool.*tag>> &\)$'), ('proseqi', r'uvector<long.*logical_not'), ('proseqa', r'arange_generator.*less_equal')):
    fn('hg::propagate_sequential', w, sig=sig, requires=NODEW + ['xcondition.len = ' + NV], use=['keep'], lemmas=['keep_props'],
       ensures=[('one value per node', 'result.len = ' + NV), ('value of the closest ancestor-or-self where the condition is false', 'forall v. 0 <= v < %s -> result[v] = xinput[keep %s xcondition v]' % (NV, P)),
                ('closest such ancestor', 'forall v. 0 <= v < %s -> kept %s xcondition v (keep %s xcondition v)' % (NV, P, P))],
       at={'loop1.begin': ['keep_props %s xcondition i_it' % P], 'loop1.pre': ['keep_props %s xcondition (%s - 1)' % (P, NV)]},
       loops={1: dict(inv=['forall v. i_it < v < %s -> kept %s xcondition v (keep %s xcondition v)' % (NV, P, P), '-1 <= i_it < %s - 1' % NV, 'forall v. i_it < v < %s -> output[v] = xinput[keep %s xcondition v]' % (NV, P)])})
PA = {'sum': ('x[v]', 'r[p[v]] +. x[v]'), 'prod': ('x[v]', 'rmul r[p[v]] x[v]'), 'min': ('rmin x[v] c_real_max', 'rmin x[v] (rmin r[p[v]] c_real_max)'), 'max': ('rmax x[v] c_real_lowest', 'rmax x[v] (rmax r[p[v]] c_real_lowest)'),
      'mean': ('x[v]', '(r[p[v]] +. x[v]) /. 2.0'), 'counter': ('1.0', '2.0'), 'first': ('x[v]', 'r[p[v]]'), 'last': ('x[v]', 'x[v]'),
      'argmin': ('0.0', '(if x[v] <. r[p[v]] then 1.0 else 0.0)'), 'argmax': ('0.0', '(if x[v] >. r[p[v]] then 1.0 else 0.0)')}
for a, (r0, r1) in PA.items():
    for cond in (0, 1):
        def form(r, v, f): 
            import re as _re
            f = f.replace('x[v]', 'xinput[v]').replace('r[p[v]]', '%s[%s[v]]' % (r, P))
            f = _re.sub(r'\bv\b', v, f)
            return '%s[%s] = %s' % (r, v, f if not cond else '(if xcondition[%s] = True then %s else xinput[%s])' % (v, f, v))
        at = {}
        loops = {1: dict(inv=['-1 <= i_it < %s - 1' % NV, form('output', '(%s - 1)' % NV, r0), 'forall v. i_it < v < %s - 1 -> ' % NV + form('output', 'v', r1)])}
        if a in ('argmin', 'argmax'): loops[1]['inv'].append('acc_m_temp.len = 1')
        if a == 'first':
            o = {1: NV + ' - 1', 3: 'i_it', 4: 'i_it'}
            b = lambda k, s_, vb, pos, src: dict(inv=['%s <= %s <= %s + 1' % (o[k], s_, o[k]), '%s = %s + (%s - (%s))' % (vb, pos, s_, o[k]), 'forall u. u <> %s \\/ %s = %s -> output[u] = output_at%d[u]' % (o[k], s_, o[k], k),
                '%s = %s + 1 -> output[%s] = %s[%s]' % (s_, o[k], o[k], src, pos)], var='%s + 1 - %s' % (o[k], s_))
            loops = {1: b(1, 's', 'value_begin', 'input_view', 'xinput'), 2: loops[1], 3: b(3, 's_1', 'value_begin_1', 'parent_view', 'output_at3'), 4: b(4, 's_2', 'value_begin_2', 'input_view', 'xinput')}
        fn('hg::propagate_sequential_and_accumulate', 'proacc%s_%s' % ('c' * cond, a), sig='accumulator_%s &' % a + ('.*bool' if cond else r'\)'), requires=NODEW + ['xcondition.len = ' + NV] * cond +
           (['forall u. 0 <= u < %s -> xinput[u] %s. %s' % (NV, '<' if a == 'argmin' else '>', 'c_real_max' if a == 'argmin' else 'c_real_lowest')] if a[:3] == 'arg' else []), use=['folds'],
           ensures=[('one value per node', 'result.len = ' + NV), ('root', form('result', '(%s - 1)' % NV, r0)), ('along the path from the root', 'forall v. 0 <= v < %s - 1 -> ' % NV + form('result', 'v', r1))], at=at, loops=loops)

ALLACC = ['accpar_' + a for a in ACC] + ['accseq_' + a for a in ACC if a[:3] != 'arg'] + ['acccomb%s_%s' % (c, a) for a in ('sum', 'max') for c in ('plus', 'mult', 'fmin')] + ['propar', 'proparc', 'proseq', 'proseqi', 'proseqa'] + ['proacc%s_%s' % ('c' * k, a) for a in PA for k in (0, 1)]
prop('C12', ALLACC, harness='C12.cpp', bounded=['sequential accumulation with argmin/argmax, and-combine for accumulators other than sum and max (same templates, folds not under contract)'])
