# monotonic regression: running maximum from the leaves, running minimum from the root
theory('mono', """
predicate max_below (p: vec int) (x: vec real) (v: int) (m: real) = (forall u. 0 <= u < p.len -> anc p v u -> x[u] <=. m) /\\ exists u. 0 <= u < p.len /\\ anc p v u /\\ x[u] = m
predicate min_above (p: vec int) (x: vec real) (v: int) (m: real) = (forall a. 0 <= a < p.len -> anc p a v -> m <=. x[a]) /\\ exists a. 0 <= a < p.len /\\ anc p a v /\\ x[a] = m
predicate increasing_ (p: vec int) (x: vec real) = forall u. 0 <= u < p.len -> x[u] <=. x[p[u]]
""", deps=['anc', 'folds'])
lemma('fmax_props', '(p: vec int) (x: vec real) (v i: int)', [], ['forall u. 0 <= u < i -> p[u] = v -> x[u] <=. fmax p x v i', 'fmax p x v i >=. c_real_lowest', 'fmax p x v i = c_real_lowest \\/ exists u. 0 <= u < i /\\ p[u] = v /\\ x[u] = fmax p x v i'],
      body='if 0 < i then fmax_props p x v (i - 1)', rec=True, variant='(if i < 0 then 0 else i)', use=['folds'])
lemma('run_max', '(p: vec int) (nl: int) (x r: vec real) (k: int)', ['parents_ok p nl', 'x.len = p.len', 'r.len = p.len', '0 <= k <= p.len', 'forall v. 0 <= v < nl -> r[v] = x[v]', 'forall v. nl <= v < p.len -> r[v] = rmax (fmax p r v v) x[v]', 'forall v. 0 <= v < p.len -> x[v] >. c_real_lowest'],
      ['forall v. 0 <= v < k -> max_below p x v r[v]'],
      body='if 0 < k then begin let v = k - 1 in run_max p nl x r v; anc_le_leaf p nl p.len; anc_children p v p.len; anc_ups p v p.len; fmax_props p r v v; assert { anc p v v }; assert { forall u. 0 <= u < p.len -> anc p v u -> u <> v -> x[u] <=. r[v] } end',
      rec=True, variant='k', use=['mono'], lemmas=['anc_children', 'anc_ups', 'fmax_props', 'anc_le_leaf'])
lemma('max_incr', '(p: vec int) (x r: vec real)', ['parents_up p', 'x.len = p.len', 'forall v. 0 <= v < p.len -> max_below p x v r[v]'], ['increasing_ p r'],
      body='let ref u = 0 in while u < p.len do invariant { 0 <= u <= p.len } invariant { forall w. 0 <= w < u -> r[w] <=. r[p[w]] } variant { p.len - u } if u < p.len - 1 then begin anc_ups p (p.elts u) p.len; assert { anc p p[u] u } end; u <- u + 1 done', use=['mono'], lemmas=['anc_ups'])
lemma('incr_anc', '(p: vec int) (x: vec real) (a k: int)', ['parents_up p', 'increasing_ p x', '0 <= a < p.len', '0 <= k <= p.len'], ['forall u. p.len - k <= u < p.len -> anc p a u -> x[u] <=. x[a]'],
      body='if 0 < k then begin incr_anc p x a (k - 1); assert { x[p.len - k] <=. x[p[p.len - k]] } end', rec=True, variant='k', use=['mono'])
lemma('incr_ancs', '(p: vec int) (x: vec real) (k: int)', ['parents_up p', 'increasing_ p x', '0 <= k <= p.len'], ['forall a u. 0 <= a < k -> 0 <= u < p.len -> anc p a u -> x[u] <=. x[a]'],
      body='if 0 < k then begin incr_ancs p x (k - 1); incr_anc p x (k - 1) p.len end', rec=True, variant='k', use=['mono'], lemmas=['incr_anc'])
lemma('run_min', '(p: vec int) (x r: vec real) (k: int)', ['parents_up p', 'x.len = p.len', 'r.len = p.len', '0 <= k <= p.len', 'r[p.len - 1] = x[p.len - 1]', 'forall v. 0 <= v < p.len - 1 -> r[v] = rmin x[v] r[p[v]]'],
      ['forall v. p.len - k <= v < p.len -> min_above p x v r[v]'],
      body='if 0 < k then begin let v = p.len - k in run_min p x r (k - 1); anc_ge p v; assert { anc p v v }; assert { v = p.len - 1 -> forall a. anc p a v -> a = v }; assert { v < p.len - 1 -> min_above p x p[v] r[p[v]] /\\ forall a. anc p a v <-> a = v \\/ anc p a p[v] }; assert { anc p p[v] v } end',
      rec=True, variant='k', use=['mono'], lemmas=['anc_ge'])
acc_spec('comb_lmax', 'max', sig='xview<.*accumulator_max.*lambda.*tree_monotonic')
for k, s in ((0, 'xtensor_container<xt::uvector<double.*xtensor_container<xt::uvector<double.*xtensor_container<xt::uvector<double'), (1, 'xbroadcast')):
    fn('hg::tree_monotonic_regression_internal::tree_monotonic_regression_least_square', 'tmr_ls%d' % k, sig='&.*' + ('; const xt::xexpression<xt::xtensor_container.*; const xt::xexpression<xt::xtensor_container' if k == 0 else 'xbroadcast'), assumed='least-square mode: outside the verifier (Fibonacci heap); never called under the proved precondition', requires=['false'], ensures=[])
MAXS, MINS = int('01' + b'max'.hex(), 16), int('01' + b'min'.hex(), 16); LS = int('01' + b'least_square'.hex(), 16)
fn('hg::tree_monotonic_regression', 'tmr', sig='; const xt::xexpression<.*; const xt::xexpression<', use=['mono'], lemmas=['run_max', 'run_min', 'max_incr', 'incr_ancs'],
   requires=TT + ['xaltitudes.len = ' + NV, 'mode <> %d' % LS, 'forall v. 0 <= v < %s -> c_real_lowest <. xaltitudes[v] /\\ xaltitudes[v] <. c_real_max' % NV, 'xweights.len = 0 \\/ xweights.len = ' + NV], raises='mode <> %d /\\ mode <> %d' % (MAXS, MINS),
   ensures=[('known mode', 'mode = %d \\/ mode = %d' % (MAXS, MINS)), ('one value per node', 'result.len = ' + NV), ('increasing', 'increasing_ %s result' % P),
            ('max mode: maximum over the descendants', 'mode = %d -> forall v. 0 <= v < %s -> max_below %s xaltitudes v result[v]' % (MAXS, NV, P)),
            ('min mode: minimum over the ancestors', 'mode = %d -> forall v. 0 <= v < %s -> min_above %s xaltitudes v result[v]' % (MINS, NV, P)),
            ('an increasing map is unchanged', 'increasing_ %s xaltitudes -> forall v. 0 <= v < %s -> result[v] = xaltitudes[v]' % (P, NV))],
   at={'return': ['if mode = %d then begin run_max %s %s xaltitudes res_ %s; max_incr %s xaltitudes res_ end else begin run_min %s xaltitudes res_ %s end' % (MAXS, P, NL, NV, P, P, NV),
                  'if pure { increasing_ %s xaltitudes } then incr_ancs %s xaltitudes %s' % (P, P, NV)]})
prop('C29', ['tmr', 'acccomblmax_max', 'proacc_min', 'tree_compute_children'], lemmas=['max_incr'], harness='C29.cpp', bounded=['least-square mode (Fibonacci heap): bounded'])
