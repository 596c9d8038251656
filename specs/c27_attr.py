# basic tree attributes
theory('ifolds', '''
let rec ghost function isum (p: vec int) (x: vec int) (v: int) (i: int) : int variant { i } = if i <= 0 then 0 else if p.elts (i - 1) = v then x.elts (i - 1) + (isum p x v (i - 1)) else isum p x v (i - 1)
''', deps=['tree'])
lemma('gap_isum', '(p: vec int) (x: vec int) (v a b: int)', ['0 <= a <= b', 'no_child p v a b'], ['isum p x v a = isum p x v b'],
      body='if a < b then gap_isum p x v a (b - 1)', rec=True, variant='b', use=['folds', 'ifolds'])
lemma('frame_isum', '(p: vec int) (x y: vec int) (j: int)', ['forall u. 0 <= u < j -> x[u] = y[u]'], ['forall v i. i <= j -> isum p x v i = isum p y v i'],
      body='if 0 < j then frame_isum p x y (j - 1)', rec=True, variant='j', use=['ifolds'])
lemma('anc_child', '(p: vec int) (v u: int)', ['parents_up p', '0 <= u < p.len', 'anc p v u', 'u <> v'], ['exists c. u <= c < v /\\ p[c] = v /\\ anc p c u'],
      body='anc_ge p u; anc_ge p (p.elts u); if p.elts u <> v then anc_child p v (p.elts u)', rec=True, variant='p.len - u', use=['anc'], lemmas=['anc_ge'])
lemma('anc_uniq', '(p: vec int) (m u: int)', ['parents_up p', '0 <= m < p.len', '0 <= u < p.len - 1', 'anc p u m'],
      ["forall u'. 0 <= u' < p.len - 1 -> anc p u' m -> p[u'] = p[u] -> u' = u"], body='''anc_linear p m u; anc_ge p (p.elts u);
      assert { forall u'. 0 <= u' < p.len - 1 -> p[u'] = p[u] -> u' <> u -> anc p u' u -> anc p u' p[u] };
      assert { forall u'. 0 <= u' < p.len - 1 -> p[u'] = p[u] -> u' <> u -> anc p u u' -> anc p u p[u'] }''', use=['anc'], lemmas=['anc_linear', 'anc_ge'])
for T_, Z, PL, F, D, th in (('real', '0.0', '+.', 'fsum', 'rdsum', 'folds'), ('int', '0', '+', 'isum', 'idsum', 'ifolds')):
    d = dict(T=T_, Z=Z, P=PL, F=F, D=D)
    def f_(s): 
        for k, v in d.items(): s = s.replace('@' + k, v)
        return s
    theory('th_' + D, f_('''
(** sum of y over the nodes of index < k which are v or a descendant of v *)
let rec ghost function @D (p: vec int) (y: vec @T) (v k: int) : @T variant { k } = if k <= 0 then @Z else if pure { anc p v (k - 1) } then y.elts (k - 1) @P @D p y v (k - 1) else @D p y v (k - 1)
'''), deps=['anc', th])
    U = ['th_' + D]
    lemma(D + '_zero', f_('(p: vec int) (a: vec @T) (v i: int)'), [f_('forall u. 0 <= u < i -> a[u] = @Z')], [f_('@F p a v i = @Z')], body=f_('if 0 < i then @D_zero p a v (i - 1)'), rec=True, variant='i', use=U)
    lemma(D + '_add', f_('(p: vec int) (a b: vec @T) (m: int) (ym: @T) (v i: int)'), ['parents_up p', '0 <= v < p.len', '0 <= i <= v', '0 <= m < p.len', f_('forall u. 0 <= u < v -> b[u] = (if anc p u m then ym @P a[u] else a[u])')],
          [f_('@F p b v i = (if exists c. 0 <= c < i /\\ p[c] = v /\\ anc p c m then ym @P @F p a v i else @F p a v i)')],
          body=f_('if 0 < i then begin if pure { p[i-1] = v /\\ anc p (i - 1) m } then anc_uniq p m (i - 1); @D_add p a b m ym v (i - 1) end'), rec=True, variant='i', use=U, lemmas=['anc_uniq'])
    lemma(D + '_above', f_('(p: vec int) (y: vec @T) (k: int)'), ['parents_up p', '0 <= k <= p.len'], [f_('forall c. 0 <= c < k -> @D p y c k = @D p y c (c + 1)')],
          body=f_('if 0 < k then begin anc_ge p (k - 1); @D_above p y (k - 1) end'), rec=True, variant='k', use=U, lemmas=['anc_ge'])
    lemma(D + '_ex', f_('(p: vec int) (y a: vec @T) (v m: int)'), ['parents_up p', '0 <= v < p.len', '0 <= m <= v', f_('forall c. 0 <= c < v -> a[c] = @D p y c m')], [f_('@F p a v v = @D p y v m')],
          body=f_('''if m = 0 then @D_zero p a v v else begin
            let ghost b = vec_pw v (pure { fun c -> @D p y c (m - 1) }) in
            @D_ex p y b v (m - 1); @D_add p b a (m - 1) (y.elts (m - 1)) v v;
            if pure { anc p v (m - 1) } then anc_child p v (m - 1);
            if pure { exists c. 0 <= c < v /\\ p[c] = v /\\ anc p c (m - 1) } then begin
              let ghost c = any int ensures { 0 <= result < v /\\ p[result] = v /\\ anc p result (m - 1) } in anc_trans p (m - 1) c; assert { anc p v c } end;
            assert { anc p v (m - 1) <-> exists c. 0 <= c < v /\\ p[c] = v /\\ anc p c (m - 1) }
            end'''), rec=True, variant='m', use=U, lemmas=[D + '_zero', D + '_add', 'anc_child', 'anc_trans'])
    lemma(D + '_main', f_('(p: vec int) (y r: vec @T) (v: int)'), ['parents_up p', '-1 <= v < p.len', f_('forall w. 0 <= w <= v -> r[w] = y[w] @P @F p r w w')], [f_('forall w. 0 <= w <= v -> r[w] = @D p y w (w + 1)')],
          body=f_('''if 0 <= v then begin @D_main p y r (v - 1); @D_above p y v; 
            let ghost a = vec_pw v (pure { fun c -> @D p y c v }) in @D_ex p y a v v; frame_@F p a r v end'''), rec=True, variant='v + 1', use=U, lemmas=[D + '_above', D + '_ex', 'frame_' + F])
    lemma(D + '_noch', f_('(p: vec int) (x: vec @T) (nl i: int)'), ['forall u. 0 <= u < i -> nl <= p[u]'], [f_('forall v. v < nl -> @F p x v i = @Z'), f_('forall v k. v < nl -> k <= i -> @F p x v k = @Z')],
          body=f_('if 0 < i then @D_noch p x nl (i - 1)'), rec=True, variant='i', use=U)
    lemma(D + '_frame', f_('(p: vec int) (x y: vec @T) (k: int)'), [f_('forall u. 0 <= u < k -> y[u] = x[u]')], [f_('forall v i. i <= k -> @D p y v i = @D p x v i')], body=f_('if 0 < k then @D_frame p x y (k - 1)'), rec=True, variant='k', use=U)
    lemma(D + '_leaf', f_('(p: vec int) (x y: vec @T) (nl k: int)'), [f_('0 <= nl <= k'), f_('forall u. 0 <= u < nl -> y[u] = x[u]'), f_('forall u. nl <= u < k -> y[u] = @Z')], [f_('forall v. @D p y v k = @D p x v nl')],
          body=f_('if nl < k then @D_leaf p x y nl (k - 1) else @D_frame p x y k'), rec=True, variant='k', use=U, lemmas=[D + '_frame'])

TT = ['tree_ok tree']
# area: fold of the children by the sequential accumulator, then the lemma: sum over the leaves below
ACC['isum'] = dict(fx=['isum'], fn=[], run=lambda o, X, v, i: '%s[%s] = isum %s %s %s %s' % (o, v, P, X, v, i), st={}, neutral='0')
acc_spec('seq', 'isum', sig=r'xscalar<long>.*accumulator_sum &')
AREA = 'each node: sum over the leaves below it'
for n, sig, D, call in (('attr_area', 'xtensor_con', 'rdsum', 'xleaf_area'), ('attr_area_ones', 'xscalar', 'idsum', 'xleaf_area')):
    z = '0.0' if D == 'rdsum' else '0'
    fn('hg::attribute_area', n, sig=sig, use=['th_' + D], lemmas=[D + '_main', D + '_leaf', D + '_above', D + '_noch'], requires=TT + ['xleaf_area.len = ' + NL],
       ensures=[('one value per node', 'result.len = ' + NV), (AREA, 'forall v. 0 <= v < %s -> result[v] = %s %s xleaf_area v %s' % (NV, D, P, NL))],
       at={'return': ['let ghost y = vec_pw %s (pure { fun u -> if u < %s then xleaf_area[u] else %s }) in' % (NV, NL, z), '%s_noch %s res_ %s (%s - 1)' % (D, P, NL, NV),
                      '%s_main %s y res_ (%s - 1); %s_above %s y %s; %s_leaf %s xleaf_area y %s %s' % (D, P, NV, D, P, NV, D, P, NL, NV)]})
theory('ones', 'predicate is_ones (x: vec int) (n: int) = x.len = n /\\ forall i. 0 <= i < n -> x[i] = 1')
fn('hg::attribute_area', 'attr_area_count', sig=r'^(?!.*xexpr)', use=['th_idsum', 'ones'], requires=TT,
   ensures=[('one value per node', 'result.len = ' + NV), ('each node: number of leaves below it', 'exists x. is_ones x %s /\\ forall v. 0 <= v < %s -> result[v] = idsum %s x v %s' % (NL, NV, P, NL))])
theory('volc', '''
function rabs (x: real) : real = if x >=. 0.0 then x else -. x
(** contribution of a node to the volumes (leaves do not contribute) *)
function volc (p: vec int) (nl: int) (alt area: vec real) : vec real = { elts = (fun u -> if u < nl then 0.0 else rmul (rabs (alt[u] -. alt[p[u]])) area[u]); len = p.len }
(** number of proper ancestors *)
let rec ghost function nanc (p: vec int) (v: int) : int variant { p.len - v } = if v < 0 || p.len <= v then 0 else if p.elts v <= v then 0 else 1 + nanc p (p.elts v)
''', deps=['th_rdsum'])

FR = ['tree_ok tree']
VC = '(volc %s %s xnode_altitude xnode_area)' % (P, NL)
L_ = 'tree.tree_children[i_it - %s]' % NL
cg = lambda v, k: 'child_gap %s %s tree.tree_children %s (%s)' % (P, NL, v, k)
fn('hg::attribute_volume', 'attr_volume', use=['volc', 'folds'], lemmas=['rdsum_main', 'rdsum_noch', 'gap_fsum', 'frame_fsum', 'child_gap'], requires=TT + ['xnode_altitude.len = ' + NV, 'xnode_area.len = ' + NV],
   ensures=[('one value per node', 'result.len = ' + NV), ('sum over the descendants', 'forall v. 0 <= v < %s -> result[v] = rdsum %s %s v (v + 1)' % (NV, P, VC))],
   at={'loop1.begin': ['let ghost o0 = volume in'], 'loop1.end': ['frame_fsum %s o0 volume (i_it - 1)' % P],
       'loop2.begin': [cg('i_it', 'c_it'), 'gap_fsum %s o0 i_it (upto %s c_it) (hi_ %s i_it c_it)' % (P, L_, L_)],
       'loop2.post': [cg('i_it', '(%s).len' % L_), 'gap_fsum %s o0 i_it (upto %s (%s).len) i_it' % (P, L_, L_)],
       'return': ['rdsum_noch %s res_ %s (%s - 1)' % (P, NL, NV), 'rdsum_main %s %s res_ (%s - 1)' % (P, VC, NV)]},
   loops={1: dict(inv=['%s <= i_it <= %s' % (NL, NV), 'forall v. 0 <= v < %s -> volume[v] = 0.0' % NL, 'forall v. %s <= v < i_it -> volume[v] = %s[v] +. fsum %s volume v v' % (NL, VC, P)]),
          2: dict(inv=['0 <= c_it <= c_end', 'forall u. 0 <= u < i_it -> volume[u] = o0[u]', 'volume[i_it] = %s[i_it] +. fsum %s o0 i_it (upto %s c_it)' % (VC, P, L_)])})
fn('hg::attribute_depth', 'attr_depth', use=['volc'], requires=TT,
   ensures=[('one value per node', 'result.len = ' + NV), ('number of proper ancestors', 'forall v. 0 <= v < %s -> result[v] = nanc %s v' % (NV, P))],
   loops={1: dict(inv=['-1 <= i_it < %s - 1' % NV, 'forall v. i_it < v < %s -> depth[v] = nanc %s v' % (NV, P)])})

lemma('ch_rank', '(p: vec int) (nl: int) (ch: vec (vec int)) (v k: int)', ['parents_ok p nl', 'exists pos. children_ok p nl ch pos', 'nl <= v < p.len', '0 <= k <= ch[v - nl].len'],
      ['nch p v (upto ch[v - nl] k) = k', 'nch p v (hi_ ch[v - nl] v k) = k', 'forall j. 0 <= j < k -> nch p v (ch[v - nl])[j] = j'],
      body='child_gap p nl ch v k; if 0 < k then ch_rank p nl ch v (k - 1); gap_nch p v (upto (ch.elts (v - nl)) k) (hi_ (ch.elts (v - nl)) v k)', rec=True, variant='k', use=['folds'], lemmas=['child_gap', 'gap_nch'])
lemma('rem_neg', '(x y: int)', ['0 < y'], ['0 <= mod x y < y', 'mod (- x) y = (if mod x y = 0 then 0 else y - mod x y)'],
      body='let ghost q = div x y in let ghost r = mod x y in assert { x = y * q + r /\\ 0 <= r < y }; assert { -x = y * div (-x) y + mod (-x) y /\\ 0 <= mod (-x) y < y }; '
           'assert { mod (-x) y + r = y * (- q - div (-x) y) }; let ghost k = - q - div (-x) y in assert { k <= 0 -> y * k <= 0 }; assert { k >= 2 -> y * k >= 2 * y }', use=['folds'])
CHN = 'tree.tree_children'
for w, q, cv, val in (('attr_child_number', 'attribute_child_number', ('res', 'i', 'c'), lambda u: 'nch %s %s[%s] %s' % (P, P, u, u)),):
    a, i, c = cv
    Lc = '%s[%s_it - %s]' % (CHN, i, NL)
    fn('hg::' + q, w, use=['folds'], lemmas=['ch_rank', 'child_gap'], requires=TT,
       ensures=[('one value per node', 'result.len = ' + NV), ('rank among the children of the parent', 'forall u. 0 <= u < %s - 1 -> result[u] = %s' % (NV, val('u'))), ('root', 'result[%s - 1] = -1' % NV)],
       at={'loop2.begin': [cg(i + '_it', c).replace('i_it', i + '_it'), 'ch_rank %s %s %s %s_it %s' % (P, NL, CHN, i, c)], 'loop2.post': [cg(i + '_it', '(%s).len' % Lc)]},
       loops={1: dict(inv=['%s <= %s_it <= %s' % (NL, i, NV), 'forall u. 0 <= u < %s - 1 -> %s[u] < %s_it -> %s[u] = %s' % (NV, P, i, a, val('u'))]),
              2: dict(inv=['0 <= %s <= (%s).len' % (c, Lc), 'forall u. 0 <= u < %s - 1 -> %s[u] < %s_it -> %s[u] = %s' % (NV, P, i, a, val('u')),
                           'forall u. 0 <= u < upto %s %s -> %s[u] = %s_it -> %s[u] = %s' % (Lc, c, P, i, a, val('u'))], var='(%s).len - %s' % (Lc, c))})
theory('sib', '''
(** r is the child of the parent of u whose rank is that of u plus skip, modulo the number of children *)
predicate sib (p: vec int) (skip: int) (u: int) (r: int) = 0 <= r < p.len - 1 /\\ p[r] = p[u] /\\ nch p p[u] r = mod (nch p p[u] u + skip) (nch p p[u] p[u])
''', deps=['folds'])
SIB = lambda a, u: 'sib %s skip %s %s[%s]' % (P, u, a, u)
Ln = '%s[n_it - %s]' % (CHN, NL)
fn('hg::attribute_sibling', 'attr_sibling', use=['folds', 'sib'], lemmas=['ch_rank', 'child_gap', 'rem_neg'], requires=TT,
   ensures=[('one value per node', 'result.len = ' + NV), ('sibling at the given circular offset', 'forall u. 0 <= u < %s - 1 -> %s' % (NV, SIB('result', 'u'))), ('root', 'result[%s - 1] = %s - 1' % (NV, NV))],
   at={'loop2.begin': ['ch_rank %s %s %s n_it (%s).len' % (P, NL, CHN, Ln), cg('n_it', 'i'), cg('n_it', '(%s).len' % Ln), 'rem_neg (i + skip) (%s).len' % Ln], 'loop2.post': [cg('n_it', '(%s).len' % Ln)],
       },
   loops={1: dict(inv=['%s <= n_it <= %s' % (NL, NV), 'forall u. 0 <= u < %s - 1 -> %s[u] < n_it -> %s' % (NV, P, SIB('attribute', 'u'))]),
          2: dict(inv=['0 <= i <= (%s).len' % Ln, 'forall u. 0 <= u < %s - 1 -> %s[u] < n_it -> %s' % (NV, P, SIB('attribute', 'u')), 'forall u. 0 <= u < upto %s i -> %s[u] = n_it -> %s' % (Ln, P, SIB('attribute', 'u'))], var='(%s).len - i' % Ln)})
prop('C27', ['attr_area', 'attr_area_ones', 'attr_area_count', 'accseq_sum', 'accseq_isum', 'attr_volume', 'attr_depth', 'attr_child_number', 'attr_sibling', 'tree_compute_children'], harness='C27.cpp')
