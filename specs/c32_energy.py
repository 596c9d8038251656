# optimal cut of a tree for an additive energy
theory('ecut', """
(** value of the nodes when a node of s is cut and the others add up their children *)
predicate cut_value (p: vec int) (nl: int) (en: vec real) (s: int -> bool) (cv: vec real) = cv.len = p.len /\\
  forall v. 0 <= v < p.len -> cv[v] = if s v \\/ v < nl then en[v] else fsum p cv v v
(** v is a topmost node of s *)
predicate top_of (p: vec int) (s: int -> bool) (v: int) = s v /\\ forall a. 0 <= a < p.len -> anc p a v -> a <> v -> not (s a)
(** each leaf is below exactly one node of s *)
predicate covered (p: vec int) (s: int -> bool) (l: int) = exists a. 0 <= a < p.len /\\ anc p a l /\\ s a
predicate covers (p: vec int) (nl: int) (s: int -> bool) = forall l. 0 <= l < nl -> covered p s l
predicate is_cut (p: vec int) (nl: int) (s: int -> bool) = covers p nl s /\\ forall a b. 0 <= a < p.len -> 0 <= b < p.len -> s a -> s b -> anc p a b -> a = b
let rec ghost function total (en: vec real) (s: int -> bool) (k n: int) : real variant { n - k } = if k >= n then 0.0 else total en s (k + 1) n +. (if s k then en.elts k else 0.0)
predicate free_ (p: vec int) (s: int -> bool) (k u: int) = p[u] >= k /\\ forall a. 0 <= a < p.len -> anc p a u -> a <> u -> not (s a)
let rec ghost function front (p: vec int) (cv: vec real) (s: int -> bool) (k j: int) : real variant { j } =
  if j <= 0 then 0.0 else front p cv s k (j - 1) +. (if pure { free_ p s k (j - 1) } then cv.elts (j - 1) else 0.0)
function topset (p: vec int) (s: int -> bool) : int -> bool = fun v -> top_of p s v
predicate opt_value (p: vec int) (nl: int) (en op: vec real) (o: vec bool) = op.len = p.len /\\ o.len = p.len /\\
  (forall v. 0 <= v < nl -> op[v] = en[v] /\\ o[v] = True) /\\
  (forall v. nl <= v < p.len -> op[v] = (if en[v] <=. fsum p op v v then en[v] else fsum p op v v) /\\ (o[v] = True <-> en[v] <=. fsum p op v v))
function o_set (o: vec bool) : int -> bool = fun v -> o[v] = True
(** two leaves have the same label exactly when they are below the same nodes of the cut *)
predicate labels_cut (p: vec int) (nl: int) (s: int -> bool) (lab: vec int) = lab.len = nl /\\ (forall a. 0 <= a < nl -> 0 <= lab[a]) /\\
  forall a b. 0 <= a < nl -> 0 <= b < nl -> (lab[a] = lab[b] <-> forall v. 0 <= v < p.len -> s v -> (anc p v a <-> anc p v b))
predicate least_cut (p: vec int) (nl: int) (en: vec real) (lab: vec int) = exists s. is_cut p nl s /\\ labels_cut p nl s lab /\\ forall s'. is_cut p nl s' -> total en s 0 p.len <=. total en s' 0 p.len
predicate by_top (p: vec int) (s: int -> bool) (lab: vec int) (k u: int) = exists t. k <= t < p.len /\\ top_of p s t /\\ anc p t u /\\ lab[t] = lab[u]
predicate backtrack (p: vec int) (s: int -> bool) (lab: vec int) (count k: int) = lab.len = p.len /\\ 0 <= count /\\
  (forall u. 0 <= u < k -> p[u] < k -> lab[u] = -1) /\\
  (forall u. 0 <= u < p.len -> k <= u \\/ p[u] >= k -> if lab[u] = -1 then forall a. k <= a < p.len -> anc p a u -> not (s a) else by_top p s lab k u) /\\
  (forall t. k <= t < p.len -> top_of p s t -> 0 <= lab[t] < count) /\\
  (forall t t'. k <= t < t' < p.len -> top_of p s t -> top_of p s t' -> lab[t] <> lab[t'])
""", deps=['anc', 'folds'])
lemma('covered_self', '(p: vec int) (s: int -> bool) (l: int)', ['0 <= l < p.len', 's l'], ['covered p s l'], body='assert { anc p l l }', use=['ecut'])
lemma('covered_only', '(p: vec int) (s: int -> bool) (l: int)', ['covered p s l', 'forall a. 0 <= a < p.len -> anc p a l -> a <> l -> not (s a)'], ['s l'], use=['ecut'])
lemma('ec_front', '(p: vec int) (nl: int) (cv: vec real) (s: int -> bool) (v j: int)', ['parents_ok p nl', '0 <= v < p.len', '0 <= j <= v'],
      ['front p cv s v j = front p cv s (v + 1) j +. (if nl <= v /\\ not (s v) /\\ (forall a. 0 <= a < p.len -> anc p a v -> a <> v -> not (s a)) then fsum p cv v j else 0.0)'],
      body='if 0 < j then begin ec_front p nl cv s v (j - 1); assert { forall a. anc p a (j - 1) <-> a = j - 1 \\/ anc p a p[j - 1] }; anc_ge p p.elts[j - 1]; anc_ge p v; assert { p[j - 1] = v -> (free_ p s v (j - 1) <-> not (s v) /\\ (forall a. 0 <= a < p.len -> anc p a v -> a <> v -> not (s a))) }; assert { p[j - 1] <> v -> (free_ p s v (j - 1) <-> free_ p s (v + 1) (j - 1)) } end'.replace('p.elts[j - 1]', '(p.elts (j - 1))'),
      rec=True, variant='j', use=['ecut'], lemmas=['anc_ge'])
lemma('ec_front0', '(p: vec int) (nl: int) (cv: vec real) (s: int -> bool) (j: int)', ['parents_up p', '0 <= j <= p.len - 1'], ['front p cv s p.len j = 0.0'], body='if 0 < j then ec_front0 p nl cv s (j - 1)', rec=True, variant='j', use=['ecut'])
lemma('ec_total', '(p: vec int) (nl: int) (en cv: vec real) (s: int -> bool) (k: int)', ['parents_ok p nl', 'cut_value p nl en s cv', 'covers p nl s', '0 <= k < p.len'],
      ['cv[p.len - 1] = total en (topset p s) k p.len +. front p cv s k k'],
      body='''anc_ge p k; let r = p.len - 1 in
        if k = r then begin assert { forall a. 0 <= a < p.len -> anc p a r -> a = r }; ec_front p nl cv s r r; ec_front0 p nl cv s r; assert { total en (topset p s) p.len p.len = 0.0 }; assert { topset p s r <-> s r }; assert { r < nl -> covered p s r } ; if r < nl then covered_only p s r; assert { r < nl -> s r } end
        else begin ec_total p nl en cv s (k + 1); ec_front p nl cv s k k;
          assert { front p cv s (k + 1) (k + 1) = front p cv s (k + 1) k +. (if free_ p s (k + 1) k then cv[k] else 0.0) };
          assert { free_ p s (k + 1) k <-> forall a. 0 <= a < p.len -> anc p a k -> a <> k -> not (s a) };
          assert { topset p s k <-> s k /\\ free_ p s (k + 1) k }; assert { k < nl -> free_ p s (k + 1) k -> covered p s k }; if pure { k < nl /\\ free_ p s (k + 1) k } then covered_only p s k; assert { true } end''',
      rec=True, variant='p.len - k', use=['ecut'], lemmas=['anc_ge', 'ec_front', 'ec_front0', 'covered_only'])
lemma('ec_cut_total', '(p: vec int) (nl: int) (en cv: vec real) (s: int -> bool)', ['parents_ok p nl', 'cut_value p nl en s cv', 'covers p nl s'], ['cv[p.len - 1] = total en (topset p s) 0 p.len'], body='ec_total p nl en cv s 0; assert { front p cv s 0 0 = 0.0 }', use=['ecut'], lemmas=['ec_total'])
lemma('fsum_le', '(p: vec int) (x y: vec real) (v i: int)', ['forall u. 0 <= u < i -> x[u] <=. y[u]'], ['fsum p x v i <=. fsum p y v i'], body='if 0 < i then fsum_le p x y v (i - 1)', rec=True, variant='(if i < 0 then 0 else i)', use=['folds'])
lemma('ec_le', '(p: vec int) (nl: int) (en op cv: vec real) (o: vec bool) (s: int -> bool) (k: int)', ['parents_ok p nl', 'opt_value p nl en op o', 'cut_value p nl en s cv', '0 <= k <= p.len'], ['forall v. 0 <= v < k -> op[v] <=. cv[v]'],
      body='if 0 < k then begin ec_le p nl en op cv o s (k - 1); fsum_le p op cv (k - 1) (k - 1) end', rec=True, variant='k', use=['ecut'], lemmas=['fsum_le'])
lemma('ec_build', '(p: vec int) (nl: int) (en: vec real) (s: int -> bool) (k: int)', ['parents_ok p nl', 'en.len = p.len', '0 <= k <= p.len'], ['cv.len = p.len', 'forall v. 0 <= v < k -> cv[v] = if s v \\/ v < nl then en[v] else fsum p cv v v'], ret='(cv: vec real)',
      body='''if k = 0 then en else let c = ec_build p nl en s (k - 1) in let v = k - 1 in let b = (if pure { s v \\/ v < nl } then en.elts v else fsum p c v v) in let c2 = pure { { c with elts = Map.set c.elts v b } } in frame_fsum p c c2 v; c2''', rec=True, variant='k', use=['ecut'], lemmas=['frame_fsum'])
lemma('total_ext', '(en: vec real) (s t: int -> bool) (k n: int)', ['forall v. k <= v < n -> s v <-> t v', '0 <= k <= n'], ['total en s k n = total en t k n'], body='if k < n then total_ext en s t (k + 1) n', rec=True, variant='n - k', use=['ecut'])
lemma('ec_covers', '(p: vec int) (nl: int) (en op: vec real) (o: vec bool) (s: int -> bool)', ['parents_ok p nl', 'opt_value p nl en op o', 'forall v. s v <-> o[v] = True'], ['covers p nl s', 'cut_value p nl en s op'],
      body='assert { forall l. 0 <= l < nl -> s l /\\ l < p.len }; let ref l = 0 in while l < nl do invariant { 0 <= l <= nl } invariant { forall m. 0 <= m < l -> covered p s m } variant { nl - l } covered_self p s l; l <- l + 1 done', use=['ecut'], lemmas=['covered_self'])
lemma('ec_topset', '(p: vec int) (nl: int) (s: int -> bool)', ['is_cut p nl s'], ['forall v. 0 <= v < p.len -> (topset p s v <-> s v)'], use=['ecut'])
lemma('ec_minimal', '(p: vec int) (nl: int) (en op: vec real) (o: vec bool) (s top0: int -> bool)', ['parents_ok p nl', 'en.len = p.len', 'opt_value p nl en op o', 'is_cut p nl s', 'forall v. top0 v <-> o[v] = True'], ['total en (topset p top0) 0 p.len <=. total en s 0 p.len'],
      body='''let cv = ec_build p nl en s p.len in ec_cut_total p nl en cv s; ec_le p nl en op cv o s p.len; ec_covers p nl en op o top0; ec_cut_total p nl en op top0; ec_topset p nl s; total_ext en s (topset p s) 0 p.len''',
      use=['ecut'], lemmas=['ec_build', 'ec_cut_total', 'ec_le', 'total_ext', 'ec_covers', 'ec_topset'])
lemma('bt_step', '(p: vec int) (nl: int) (s: int -> bool) (lab lab1 lab2: vec int) (count c2 v: int)', ['parents_ok p nl', '0 <= v < p.len', 'backtrack p s lab count (v + 1)', 'lab1.len = p.len', 'lab2.len = p.len',
       'if lab[v] = -1 /\\ s v then lab1[v] = count /\\ c2 = count + 1 else lab1[v] = lab[v] /\\ c2 = count', 'forall u. 0 <= u < p.len -> u <> v -> lab1[u] = lab[u]',
       'forall u. 0 <= u < p.len -> lab2[u] = if lab1[v] <> -1 /\\ p[u] = v /\\ u <> v then lab1[v] else lab1[u]'],
      ['backtrack p s lab2 c2 v'],
      body='''anc_ges p p.len; assert { p.len - 1 = v \\/ p[v] > v }; assert { lab[v] = -1 -> forall a. v < a < p.len -> anc p a v -> not (s a) };
        assert { lab[v] = -1 -> s v -> top_of p s v }; assert { lab[v] <> -1 -> by_top p s lab (v + 1) v };
        assert { top_of p s v -> lab[v] = -1 /\\ lab2[v] = count }; assert { forall t. v < t < p.len -> lab2[t] = lab[t] };
        let ghost t = (if lab.elts v <> -1 then any int ensures { v < result < p.len /\\ top_of p s result /\\ anc p result v /\\ lab[result] = lab[v] } else v) in assert { anc p v v }; assert { lab1[v] <> -1 -> v <= t < p.len /\\ top_of p s t /\\ anc p t v /\\ lab2[t] = lab1[v] };
        assert { forall u t. 0 <= u < p.len -> u <> v -> p[u] = v -> anc p t v -> anc p t u };
        assert { forall u. 0 <= u < p.len -> u <> v -> v < u \\/ p[u] > v -> lab2[u] = lab[u] };
        assert { forall u. 0 <= u < p.len -> u <> v -> p[u] = v -> lab2[u] = lab1[v] };
        assert { forall u. 0 <= u < p.len - 1 -> u < p[u] < p.len }; assert { forall u. 0 <= u < p.len -> u <> v -> anc p v u -> u < v /\\ anc p v p[u] }; assert { forall u. 0 <= u < p.len -> u <> v -> anc p v u -> p[u] <= v };
        assert { forall u. 0 <= u < p.len -> u <> v -> v < u \\/ p[u] > v -> not (anc p v u) }''',
      use=['ecut'], lemmas=['anc_ges'])
lemma('top_uniq', '(p: vec int) (s: int -> bool) (u: int)', ['parents_up p', '0 <= u < p.len'], ['forall a b. 0 <= a < p.len -> 0 <= b < p.len -> top_of p s a -> top_of p s b -> anc p a u -> anc p b u -> a = b'],
      body='if u < p.len - 1 then begin top_uniq p s (p.elts u); assert { forall a. anc p a u <-> a = u \\/ anc p a p[u] } end', rec=True, variant='p.len - u', use=['ecut'])
lemma('bt_labels', '(p: vec int) (nl: int) (s: int -> bool) (lab: vec int) (count: int) (a b: int)', ['parents_ok p nl', 'backtrack p s lab count 0', 'forall l. 0 <= l < nl -> s l', '0 <= a < nl', '0 <= b < nl'],
      ['lab[a] >= 0', 'lab[a] = lab[b] <-> forall v. 0 <= v < p.len -> topset p s v -> (anc p v a <-> anc p v b)'],
      body='''top_uniq p s a; top_uniq p s b; assert { anc p a a /\\ anc p b b }; assert { by_top p s lab 0 a /\\ by_top p s lab 0 b };
        let ghost ta = any int ensures { 0 <= result < p.len /\\ top_of p s result /\\ anc p result a /\\ lab[result] = lab[a] } in
        let ghost tb = any int ensures { 0 <= result < p.len /\\ top_of p s result /\\ anc p result b /\\ lab[result] = lab[b] } in
        assert { lab[a] = lab[b] -> ta = tb }; assert { topset p s ta /\\ topset p s tb }; assert { forall v. 0 <= v < p.len -> topset p s v -> (anc p v a <-> v = ta) /\\ (anc p v b <-> v = tb) }''',
      use=['ecut'], lemmas=['top_uniq'])
lemma('bt_final', '(p: vec int) (nl: int) (en op: vec real) (o: vec bool) (lab res: vec int) (count: int) (s: int -> bool)', ['parents_ok p nl', 'en.len = p.len', 'opt_value p nl en op o', 'forall v. s v <-> o[v] = True', 'backtrack p s lab count 0', 'res.len = nl', 'forall l. 0 <= l < nl -> res[l] = lab[l]'],
      ['least_cut p nl en res'], body='''assert { nl <= p.len }; assert { forall l. 0 <= l < nl -> s l };
        let ref a = 0 in while a < nl do invariant { 0 <= a <= nl } invariant { forall c. 0 <= c < a -> 0 <= lab[c] } invariant { forall c b. 0 <= c < a -> 0 <= b < nl -> (lab[c] = lab[b] <-> forall v. 0 <= v < p.len -> topset p s v -> (anc p v c <-> anc p v b)) } variant { nl - a }
          let ref b = 0 in while b < nl do invariant { 0 <= b <= nl } invariant { b > 0 -> 0 <= lab[a] } invariant { forall d. 0 <= d < b -> (lab[a] = lab[d] <-> forall v. 0 <= v < p.len -> topset p s v -> (anc p v a <-> anc p v d)) } variant { nl - b } bt_labels p nl s lab count a b; b <- b + 1 done; a <- a + 1 done;
        assert { labels_cut p nl (topset p s) res }; top_cut p nl en op o s; 
        let lemma minimal (s2: int -> bool) requires { is_cut p nl s2 } ensures { total en (topset p s) 0 p.len <=. total en s2 0 p.len } = ec_minimal p nl en op o s2 s in ()''',
      use=['ecut'], lemmas=['bt_labels', 'ec_minimal', 'top_cut'])
lemma('top_cut', '(p: vec int) (nl: int) (en op: vec real) (o: vec bool) (s: int -> bool)', ['parents_ok p nl', 'opt_value p nl en op o', 'forall v. s v <-> o[v] = True'], ['is_cut p nl (topset p s)'],
      body='''ec_covers p nl en op o s; let ref l = 0 in while l < nl do invariant { 0 <= l <= nl } invariant { forall m. 0 <= m < l -> covered p (topset p s) m } variant { nl - l } topmost_of p s l l; l <- l + 1 done''', use=['ecut'], lemmas=['ec_covers', 'topmost_of'])
lemma('topmost_of', '(p: vec int) (s: int -> bool) (l u: int)', ['parents_up p', '0 <= u < p.len', '0 <= l < p.len', 'anc p u l', 's u'], ['covered p (topset p s) l'],
      body='''if pure { top_of p s u } then begin assert { topset p s u } end else begin let ghost a = any int ensures { 0 <= result < p.len /\\ anc p result u /\\ result <> u /\\ s result } in anc_ge p u; anc_ups2 p u l a; topmost_of p s l a end''', rec=True, variant='p.len - u', use=['ecut'], lemmas=['anc_ge', 'anc_ups2'])
lemma('anc_ups2', '(p: vec int) (u l a: int)', ['parents_up p', '0 <= l < p.len', 'anc p u l', 'anc p a u'], ['anc p a l'], body='anc_trans p l u', use=['ecut'], lemmas=['anc_trans'])
fn('hg::labelisation_optimal_cut_from_energy', 'oce_sum', sig='accumulator_sum', use=['ecut'], lemmas=['gap_fsum', 'frame_fsum', 'child_gap', 'bt_step', 'bt_final'],
   requires=['tree_ok tree', 'xenergy_attribute.len = ' + NV],
   ensures=[('one label per leaf', 'result.len = ' + NL), ('the labels are those of a cut of least energy', 'least_cut %s %s xenergy_attribute result' % (P, NL))],
   at={'loop1.begin': ['let ghost o0 = optimal_energy in'], 'loop1.end': ['frame_fsum %s o0 optimal_energy (i_it - 1)' % P],
       'loop2.begin': ['child_gap %s %s tree.tree_children i_it c_it' % (P, NL), 'gap_fsum %s o0 i_it (upto c c_it) (hi_ c i_it c_it)' % P],
       'loop2.post': ['child_gap %s %s tree.tree_children i_it c.len' % (P, NL), 'gap_fsum %s o0 i_it (upto c c.len) i_it' % P],
       'loop1.post': ['assert { opt_value %s %s xenergy_attribute optimal_energy optimal_nodes }' % (P, NL)],
       'loop3.begin': ['let ghost lab0 = labels in', 'let ghost count0 = count in', 'let ghost lab1 = pure { if lab0[i_it_1] = -1 /\\ optimal_nodes[i_it_1] = True then { lab0 with elts = Map.set lab0.elts i_it_1 count } else lab0 } in'],
       'loop4.pre': ['let ghost pos = any (int -> int) ensures { children_ok %s %s tree.tree_children result } in' % (P, NL)],
       'loop4.begin': ['child_gap %s %s tree.tree_children i_2 c_it_1' % (P, NL)],
       'loop4.post': ['assert { i_2 >= %s -> lists_children %s pos i_2 c_2 }' % (NL, P), 'assert { forall u. 0 <= u < %s - 1 -> %s[u] = i_2 -> 0 <= pos u < c_2.len /\\ c_2[pos u] = u }' % (NV, P), 'assert { forall u. 0 <= u < %s - 1 -> %s[u] = i_2 -> labels[u] = lab1[i_2] }' % (NV, P)],
       'loop3.end': ['bt_step %s %s (pure { o_set optimal_nodes }) lab0 lab1 labels count0 count (i_it_1 + 1)' % (P, NL)],
       'return': ['bt_final %s %s xenergy_attribute optimal_energy optimal_nodes labels res_ count (pure { o_set optimal_nodes })' % (P, NL)]},
   loops={1: dict(inv=['%s <= i_it <= %s' % (NL, NV), 'optimal_energy.len = ' + NV, 'optimal_nodes.len = ' + NV, 'forall v. 0 <= v < %s -> optimal_energy[v] = xenergy_attribute[v] /\\ optimal_nodes[v] = True' % NL,
                       'forall v. %s <= v < i_it -> optimal_energy[v] = (if xenergy_attribute[v] <=. fsum %s optimal_energy v v then xenergy_attribute[v] else fsum %s optimal_energy v v) /\\ (optimal_nodes[v] = True <-> xenergy_attribute[v] <=. fsum %s optimal_energy v v)' % (NL, P, P, P)]),
          2: dict(inv=['0 <= c_it <= c_end', 'acc_m_storage_begin = i_it', 'forall u. 0 <= u < i_it -> optimal_energy[u] = o0[u]', 'optimal_energy[i_it] = fsum %s o0 i_it (upto c c_it)' % P]),
          3: dict(inv=['-1 <= i_it_1 <= %s - 1' % NV, 'i_end_1 = -1', 'labels.len = ' + NV, 'backtrack %s (o_set optimal_nodes) labels count (i_it_1 + 1)' % P]),
          4: dict(inv=['0 <= c_it_1 <= c_end_1', 'labels[i_2] = lab1[i_2]', 'forall j. 0 <= j < c_it_1 -> labels[c_2[j]] = lab1[i_2]', 'forall u. 0 <= u < %s -> %s[u] <> i_2 \\/ u = i_2 -> labels[u] = lab1[u]' % (NV, P), 'forall u. 0 <= u < %s -> labels[u] = lab1[u] \\/ labels[u] = lab1[i_2]' % NV])})
prop('C32', ['oce_sum'], lemmas=['ec_minimal', 'ec_cut_total', 'bt_final'], harness='C32.cpp', bounded=['accumulators other than the sum, integer energies: bounded'])
