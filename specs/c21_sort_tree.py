# sorting a hierarchy by altitudes
theory('sorttree', r'''
(** q is p with its nodes renumbered: node i of q is node s[i] of p *)
predicate renumbered (p q s: vec int) = q.len = s.len = p.len /\ forall i. 0 <= i < q.len -> 0 <= q[i] < q.len /\ s[q[i]] = p[s[i]]
predicate sorted_by (alt: vec real) (s: vec int) = forall k l. 0 <= k < l < s.len -> before_r alt s[k] s[l]
predicate inverse (s r: vec int) = r.len = s.len /\ (forall i. 0 <= i < s.len -> 0 <= s[i] < s.len /\ r[s[i]] = i) /\ forall v. 0 <= v < s.len -> 0 <= r[v] < s.len /\ s[r[v]] = v
(** no leaf is above an internal node *)
predicate leaves_low (alt: vec real) (nl: int) = forall l v. 0 <= l < nl <= v < alt.len -> alt[l] <=. alt[v]
predicate leaves_sorted (alt: vec real) (nl: int) = forall l m. 0 <= l <= m < nl -> alt[l] <=. alt[m]
predicate fixes (s: vec int) (k: int) = forall l. 0 <= l < k -> s[l] = l
''', deps=['parents', 'argsort', 'cuts'])
lemma('rank_order', '(alt: vec real) (s r: vec int) (u v: int)', ['sorted_by alt s', 'inverse s r', '0 <= u < s.len', '0 <= v < s.len', 'before_r alt u v'], ['r[u] < r[v]'], use=['sorttree'])
lemma('low_fixed', '(alt: vec real) (s r: vec int) (nl k: int)', ['sorted_by alt s', 'inverse s r', 'alt.len = s.len', '0 <= k <= nl <= s.len', 'leaves_low alt nl', 'leaves_sorted alt nl'], ['fixes s k'], use=['sorttree'], rec=True, variant='k', lemmas=['rank_order'],
      body="""if k > 0 then begin low_fixed alt s r nl (k - 1); let l = k - 1 in assert { s[l] >= l by (s[l] < l -> s[s[l]] = s[l] && r[s[s[l]]] = r[s[l]]) };
  if s.elts l > l then begin assert { r[l] <= l -> r[l] = l \\/ s[r[l]] = r[l] }; rank_order alt s r l (s.elts l) end end""")
lemma('sort_valid', '(p q s r: vec int) (nl: int) (alt: vec real)', ['parents_ok p nl', 'alt.len = p.len', 'sorted_by alt s', 'inverse s r', 's.len = p.len', 'renumbered p q s', 'increasing_alt p alt', 'leaves_low alt nl'],
      ['parents_ok q m', 'leaves_sorted alt nl -> m = nl /\\ fixes s nl'], ret='(m: int)', use=['sorttree'], lemmas=['rank_order', 'low_fixed'],
      body="""let n = p.len in let lemma up (i: int) requires { 0 <= i < n - 1 } ensures { i < q[i] } =
    if s.elts i = n - 1 then begin rank_order alt s r (s.elts (n - 1)) (n - 1) end else rank_order alt s r (s.elts i) (p.elts (s.elts i)) in
  let lemma last () ensures { s[n - 1] = n - 1 } = if r.elts (n - 1) < n - 1 then up (r.elts (n - 1)) in
  last (); assert { q[n - 1] = n - 1 }; assert { parents_up q };
  let lemma split (i j: int) requires { 0 <= i < n /\\ 0 <= j < n /\\ s[i] < nl <= s[j] } ensures { i < j } = rank_order alt s r (s.elts i) (s.elts j) in
  let ref m = n - 1 in
  let lemma go () ensures { true } = () in
  let rec ghost find (k: int) : int requires { 0 <= k < n /\\ forall i. 0 <= i < k -> s[i] < nl } ensures { 0 <= result < n /\\ (nl < n -> s[result] >= nl /\\ forall i. 0 <= i < result -> s[i] < nl) } variant { n - k } = if s.elts k >= nl then k else if k = n - 1 then k else find (k + 1) in
  if nl = n then begin assert { n = 1 }; m <- 1 end else m <- find 0;
  if pure { leaves_sorted alt nl } then low_fixed alt s r nl nl;
  if nl < n then begin
    let lemma inner (i: int) requires { m <= i < n } ensures { has_child q i } = if s.elts i < nl then split i m; assert { has_child p s[i] }; let ghost c = any int ensures { 0 <= result < n - 1 /\\ p[result] = s[i] } in assert { s[r[c]] = c && s[q[r[c]]] = p[c] && q[r[c]] = i && r[c] <> n - 1 } in
    let lemma above (u: int) requires { 0 <= u < n - 1 } ensures { m <= q[u] } = assert { s[q[u]] = p[s[u]] }; assert { s[u] <> n - 1 by r[s[u]] = u }; assert { nl <= s[q[u]] } in
    if s.elts 0 >= nl then split (r.elts 0) 0; assert { 1 <= m };
    assert { parents_ok q m }; if pure { leaves_sorted alt nl } then begin assert { m >= nl by m < nl -> s[m] = m }; if m > nl then begin assert { s[nl] < nl }; assert { s[s[nl]] = s[nl] }; assert { r[s[nl]] = nl } end end end;
  m""")
lemma('leaves_uniq_all', '(p: vec int) (m: int)', ['parents_ok p m'], ['forall k. parents_ok p k -> k = m'], use=['parents'], lemmas=['leaves_uniq'],
      body='let lemma u (k: int) requires { parents_ok p k } ensures { k = m } = leaves_uniq p m k in ()')
lemma('sort_accept', '(p q s r: vec int) (nl m: int) (alt: vec real)', ['parents_ok p nl', 'alt.len = p.len', 'sorted_by alt s', 'inverse s r', 's.len = p.len', 'renumbered p q s', 'parents_ok q m'], ['increasing_alt p alt', 'leaves_low alt nl'], use=['sorttree'], lemmas=['rank_order'],
      body="""let n = p.len in let lemma inc (u: int) requires { 0 <= u < n } ensures { alt[u] <=. alt[p[u]] } = let i = r.elts u in let j = q.elts i in assert { s[i] = u /\\ s[j] = p[u] /\\ i <= j }; assert { i < j -> before_r alt s[i] s[j] } in
  let lemma low (l v: int) requires { 0 <= l < nl <= v < n } ensures { alt[l] <=. alt[v] } =
    if r.elts l >= m then begin assert { has_child q r[l] }; let ghost c = any int ensures { 0 <= result < n - 1 /\\ q[result] = r[l] } in assert { p[s[c]] = l }; assert { s[c] < n - 1 -> false }; assert { s[c] = n - 1 -> l = n - 1 }; absurd end;
    assert { has_child p v }; let ghost c = any int ensures { 0 <= result < n - 1 /\\ p[result] = v } in assert { s[q[r[c]]] = v }; assert { q[r[c]] = r[v] }; assert { r[c] < n - 1 by r[c] = n - 1 -> q[r[c]] = r[c] && v = c }; assert { m <= r[v] }; assert { before_r alt s[r[l]] s[r[v]] } in ()""")
TP = 'tree.tree_parents'; NLv = 'tree.tree_num_leaves'; RT, RMp = 'result.remapped_tree_tree', 'result.remapped_tree_node_map'
fn('hg::sort_hierarchy_with_altitudes', 'sort_tree', use=['tree', 'sorttree'], lemmas=['sort_valid', 'sort_accept', 'leaves_uniq_all'], requires=['tree_ok tree', '1 <= %s.len' % TP, 'xaltitudes.len = %s.len' % TP],
   raises='not (increasing_alt %s xaltitudes) \\/ not (leaves_low xaltitudes %s)' % (TP, NLv),
   ensures=[('accepted only when the altitudes increase and no leaf is above an internal node', 'increasing_alt %s xaltitudes /\\ leaves_low xaltitudes %s' % (TP, NLv)), ('a valid tree', 'tree_ok %s' % RT), ('category', '%s.tree_category = tree.tree_category' % RT), ('a permutation of the nodes', 'is_perm %s %s.len' % (RMp, TP)),
            ('sorted altitudes, equal ones in their original order', 'sorted_by xaltitudes %s' % RMp), ('same parent relation through the map', 'renumbered %s %s.tree_parents %s' % (TP, RT, RMp)),
            ('every leaf keeps its index when the leaves are sorted and not above the internal nodes', 'leaves_low xaltitudes {0} -> leaves_sorted xaltitudes {0} -> increasing_alt {1} xaltitudes -> fixes {2} {0} /\\ {3}.tree_num_leaves = {0}'.format(NLv, TP, RMp, RT))],
   at={'loop1.post': ['let lemma inv (v: int) requires { 0 <= v < sorted.len } ensures { 0 <= reverse_sorted[v] < sorted.len /\\ sorted[reverse_sorted[v]] = v } = assert { occurs sorted v }; let ghost k = any int ensures { 0 <= result < sorted.len /\\ sorted[result] = v } in assert { reverse_sorted[sorted[k]] = k } in', 'assert { inverse sorted reverse_sorted }', 'assert { sorted_by xaltitudes sorted }'],
       'call:tree_new_m': ['sort_accept %s new_par sorted reverse_sorted %s r_tree_new_m.tree_num_leaves xaltitudes' % (TP, NLv)],
       'before:tree_new_m': ['assert { renumbered %s new_par sorted }' % TP,
           'if pure { increasing_alt %s xaltitudes /\\ leaves_low xaltitudes %s } then begin let ghost m = sort_valid %s new_par sorted reverse_sorted %s xaltitudes in assert { parents_ok new_par m }; leaves_uniq_all new_par m; () end' % (TP, NLv, TP, NLv)]},
   loops={1: dict(inv=['0 <= i <= sorted.len', 'reverse_sorted.len = sorted.len', 'forall k. 0 <= k < i -> reverse_sorted[sorted[k]] = k']),
          2: dict(inv=['0 <= i_1 <= sorted.len', 'new_par.len = sorted.len', 'forall k. 0 <= k < i_1 -> 0 <= new_par[k] < sorted.len /\\ sorted[new_par[k]] = %s[sorted[k]]' % TP])})
prop('C21', ['sort_tree', 'stable_arg_sort_d', 'tree_new_m'], harness='C21.cpp')
