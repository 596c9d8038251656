# quasi-flat zones: threshold connected components
theory('qfz', r'''
(** every labelling constant along the edges of weight at most lam gives a and b the same label: a and b are lam-connected *)
predicate under (es: vec edge) (w: vec real) (lam: real) (a b: int) = forall f: int -> int. (forall e. 0 <= e < es.len -> w[e] <=. lam -> joins es f e) -> f a = f b
(** a and b belong to a same inner node of altitude at most lam *)
predicate flat (p: vec int) (alt: vec real) (n: int) (lam: real) (a b: int) = exists v. n <= v < p.len /\ alt[v] <=. lam /\ anc p v a /\ anc p v b
predicate threshold_components (es: vec edge) (w: vec real) (p: vec int) (alt: vec real) (n: int) = forall lam a b. 0 <= a < n -> 0 <= b < n -> a <> b -> (flat p alt n lam a b <-> under es w lam a b)
predicate inner_mono (p: vec int) (alt: vec real) (n: int) = alt.len = p.len /\ forall u. n <= u < p.len -> alt[u] <=. alt[p[u]]
predicate is_bpt (es: vec edge) (w: vec real) (p: vec int) (alt: vec real) (em: vec int) (n: int) = parents_ok p n /\ p.len = 2 * n - 1 /\ em.len = n - 1 /\ in_range es em /\ inner_mono p alt n /\
  (forall v. 0 <= v < n -> alt[v] = 0.0) /\ (forall k. 0 <= k < n - 1 -> alt[n + k] = w[em[k]] /\ linkage_node es w p n k em[k]) /\ kruskal_order w em /\ forest es em /\ left_out es w em
(** inner nodes having the altitude of their parent *)
predicate flat_nodes (p: vec int) (alt: vec real) (d: vec bool) = d.len = p.len /\ forall v. 0 <= v < p.len -> (d[v] = True <-> alt[v] = alt[p[v]])
predicate simpl_by (p: vec int) (alt: vec real) (np: vec int) (nalt: vec real) (n: int) (d: vec bool) (m: vec int) = flat_nodes p alt d /\ lists_kept p n d m /\ kept_parents p n d np m /\ nalt.len = m.len /\ forall k. 0 <= k < m.len -> nalt[k] = alt[m[k]]
predicate simpl_with (p: vec int) (alt: vec real) (np: vec int) (nalt: vec real) (n: int) (d: vec bool) = exists m. simpl_by p alt np nalt n d m
predicate is_simplified (p: vec int) (alt: vec real) (np: vec int) (nalt: vec real) (n: int) = exists d. simpl_with p alt np nalt n d
(** np, nalt: the canonical binary partition tree without the inner nodes having the altitude of their parent *)
predicate is_qfz (es: vec edge) (w: vec real) (np: vec int) (nalt: vec real) (n: int) = exists p alt em. is_bpt es w p alt em n /\ is_simplified p alt np nalt n
''', deps=['bpt', 'simplify'])
LW = '(es: vec edge) (w: vec real) (p: vec int) (alt: vec real) (em: vec int) (n: int)'
lemma('inner_up', '(p: vec int) (alt: vec real) (n v: int)', ['parents_ok p n', 'inner_mono p alt n', 'n <= v < p.len'], ['forall a. anc p a v -> n <= a < p.len /\\ alt[v] <=. alt[a]'], body='if v < p.len - 1 then inner_up p alt n (p.elts v)', rec=True, variant='p.len - v', use=['qfz'])
lemma('flat_linked', LW + ' (lam: real) (f: int -> int) (m: int)', ['is_bpt es w p alt em n', 'live_edges es n', 'forall e. 0 <= e < es.len -> w[e] <=. lam -> joins es f e', 'n <= m <= p.len'],
      ['forall v a b. 0 <= v < m -> alt[v] <=. lam \\/ v < n -> anc p v a -> anc p v b -> 0 <= a < n -> 0 <= b < n -> f a = f b'],
      body='anc_le_leaf p n p.len; if m > n then begin let v = m - 1 in let k = v - n in flat_linked es w p alt em n lam f v; anc_children p v p.len; assert { linkage_node es w p n k em[k] }; '
           'let ghost x, ghost y = any (int, int) ensures { let (x, y) = result in binary_node es p v em[k] x y } in assert { alt[v] = w[em[k]] }; assert { x >= n -> alt[x] <=. alt[v] }; assert { y >= n -> alt[y] <=. alt[v] }; '
           'assert { forall a. 0 <= a < n -> anc p v a -> anc p x a \\/ anc p y a }; let ghost s = (es.elts (em.elts k)).edge_source in let ghost t = (es.elts (em.elts k)).edge_target in assert { 0 <= em[k] < es.len };'
           'if pure { alt[v] <=. lam } then begin assert { f s = f t }; assert { alt[x] <=. lam \\/ x < n }; assert { alt[y] <=. lam \\/ y < n }; assert { 0 <= s < n /\\ 0 <= t < n /\\ anc p x s /\\ anc p y t }; assert { forall a. 0 <= a < n -> anc p x a -> f a = f s }; assert { forall a. 0 <= a < n -> anc p y a -> f a = f t } end end', rec=True, variant='m', use=['qfz'], lemmas=['anc_le_leaf', 'anc_children'])
lemma('topmost', '(p: vec int) (alt: vec real) (n: int) (lam: real) (v: int)', ['parents_ok p n', 'inner_mono p alt n', '0 <= v < p.len', 'v < n \\/ alt[v] <=. lam'], ['v <= u < p.len', 'anc p u v', 'u = v \\/ (n <= u /\\ alt[u] <=. lam)', 'u = p.len - 1 \\/ alt[p[u]] >. lam'],
      body='if v = p.len - 1 || not (pure { alt[p[v]] <=. lam }) then v else topmost p alt n lam (p.elts v)', ret='(u: int)', rec=True, variant='p.len - v', use=['qfz'])
lemma('leaving', '(p: vec int) (n v t: int)', ['parents_ok p n', '0 <= v < p.len', '0 <= t < p.len', 'not (anc p v t)', 'anc p (p.len - 1) t'], ['v <= x < p.len - 1', 'anc p x v', 'not (anc p x t)', 'anc p p[x] t'],
      body='if pure { anc p p[v] t } then v else leaving p n (p.elts v) t', ret='(x: int)', rec=True, variant='p.len - v', use=['qfz'])
lemma('root_anc', '(p: vec int) (n v: int)', ['parents_ok p n', '0 <= v < p.len'], ['anc p (p.len - 1) v'], body='if v < p.len - 1 then root_anc p n (p.elts v)', rec=True, variant='p.len - v', use=['qfz'])
lemma('crossing', LW + ' (lam: real) (v s t e: int)', ['is_bpt es w p alt em n', '0 <= v < p.len - 1', 'alt[p[v]] >. lam', '0 <= s < n', '0 <= t < n', 'anc p v s', 'not (anc p v t)', '0 <= e < es.len', '(es[e].edge_source = s /\\ es[e].edge_target = t) \\/ (es[e].edge_source = t /\\ es[e].edge_target = s)'], ['w[e] >. lam'],
      body='root_anc p n t; let ghost x = leaving p n v t in let ghost u = p.elts x in let ghost k = u - n in anc_ge p v; anc_trans p s v; anc_le_leaf p n p.len; anc_children p u p.len; assert { linkage_node es w p n k em[k] }; '
           'let ghost c, ghost d = any (int, int) ensures { let (x, y) = result in binary_node es p u em[k] x y /\\ forall f. 0 <= f < es.len -> between es p x y f -> f = em[k] \\/ before_r w em[k] f } in assert { x = c \\/ x = d }; assert { anc p x s }; '
           'assert { anc p c t \\/ anc p d t }; assert { between es p c d e }; assert { w[em[k]] <=. w[e] }; anc_trans p v x; assert { anc p u v && anc p u p[v] }; inner_up p alt n (p.elts v)', use=['qfz'], lemmas=['root_anc', 'leaving', 'anc_trans', 'anc_le_leaf', 'anc_children', 'inner_up', 'anc_ge'])
lemma('qfz_cut', LW + ' (lam: real) (v a b: int)', ['is_bpt es w p alt em n', '0 <= v < p.len - 1', 'alt[p[v]] >. lam', 'live_edges es n', 'anc p v a', 'not (anc p v b)'], ['not (under es w lam a b)'],
      body='let ghost f = pure { fun x -> if anc p v x then 1 else 0 } in let ref e = 0 in while e < es.len do invariant { 0 <= e <= es.len } invariant { forall g. 0 <= g < e -> w[g] <=. lam -> joins es f g } variant { es.len - e } '
           'let ghost s = (es.elts e).edge_source in let ghost t = (es.elts e).edge_target in if pure { anc p v s /\\ not (anc p v t) } then crossing es w p alt em n lam v s t e else if pure { anc p v t /\\ not (anc p v s) } then crossing es w p alt em n lam v t s e; e <- e + 1 done', use=['qfz'], lemmas=['crossing'])
lemma('under_flat', LW + ' (lam: real) (a b: int)', ['is_bpt es w p alt em n', 'live_edges es n', '0 <= a < n', '0 <= b < n', 'a <> b', 'under es w lam a b'], ['flat p alt n lam a b'],
      body='let ghost v = topmost p alt n lam a in root_anc p n b; anc_le_leaf p n p.len; if pure { not (anc p v b) } then qfz_cut es w p alt em n lam v a b', use=['qfz'], lemmas=['topmost', 'root_anc', 'qfz_cut', 'anc_le_leaf'])
lemma('bpt_threshold', LW, ['is_bpt es w p alt em n', 'live_edges es n'], ['threshold_components es w p alt n'],
      body='let lemma t1 (lam: real) (a b: int) : unit requires { 0 <= a < n /\\ 0 <= b < n /\\ a <> b } ensures { under es w lam a b -> flat p alt n lam a b } = if pure { under es w lam a b } then under_flat es w p alt em n lam a b in '
           'let lemma t2 (lam: real) (f: int -> int) : unit requires { forall e. 0 <= e < es.len -> w[e] <=. lam -> joins es f e } ensures { forall a b. 0 <= a < n -> 0 <= b < n -> flat p alt n lam a b -> f a = f b } = flat_linked es w p alt em n lam f p.len in ()', use=['qfz'], lemmas=['under_flat', 'flat_linked'])

lemma('del_up', '(p: vec int) (alt: vec real) (n: int) (d: vec bool) (v: int)', ['parents_ok p n', 'inner_mono p alt n', 'flat_nodes p alt d', 'n <= v < p.len'], ['v <= u < p.len', 'anc p u v', 'alt[u] = alt[v]', 'not (del p n d u)'],
      body='if pure { del p n d v } then del_up p alt n d (p.elts v) else v', ret='(u: int)', rec=True, variant='p.len - v', use=['qfz'])
KEPT = ['parents_ok p n', 'd.len = p.len', 'lists_kept p n d m', 'kept_parents p n d np m', 'parents_ok np n']
lemma('kept_anc_up', '(p: vec int) (n: int) (d: vec bool) (np m: vec int) (l: int)', KEPT + ['0 <= l < m.len'], ['forall k. anc np k l -> 0 <= k < m.len /\\ anc p m[k] m[l]'],
      body="if l < m.len - 1 then begin kept_anc_up p n d np m (np.elts l); anc_trans p (m.elts l) (m.elts (np.elts l)) end", rec=True, variant='m.len - l', use=['qfz'], lemmas=['anc_trans'])
lemma('kept_anc_down', '(p: vec int) (n: int) (d: vec bool) (np m: vec int) (l: int)', KEPT + ['0 <= l < m.len'], ['forall k. 0 <= k < m.len -> anc p m[k] m[l] -> anc np k l'],
      body="anc_ge p (m.elts l); if l < m.len - 1 then begin kept_anc_down p n d np m (np.elts l); let ghost q = m.elts (np.elts l) in anc_linears p q (m.elts l); assert { forall k. 0 <= k < m.len -> anc p m[k] m[l] -> m[k] <> m[l] -> m[k] >= q && anc p m[k] q }; assert { forall k. 0 <= k < m.len -> m[k] = m[l] -> k = l } end", rec=True, variant='m.len - l', use=['qfz'], lemmas=['anc_ge', 'anc_linears'])
lemma('anc_linears', '(p: vec int) (a v: int)', ['parents_up p', '0 <= v < p.len', 'anc p a v'], ['forall b. anc p b v -> b >= a -> anc p b a'],
      body='anc_ge p v; if v <> a then begin anc_linears p a (p.elts v); anc_ge p (p.elts v) end', rec=True, variant='p.len - v', use=['anc'], lemmas=['anc_ge'])
lemma('kept_inner', '(p: vec int) (n: int) (d: vec bool) (m: vec int)', ['1 <= n', 'lists_kept p n d m'], ['forall k. n <= k < m.len -> n <= m[k]'], body='assert { m[n - 1] = n - 1 }; assert { forall k. n <= k < m.len -> m[n - 1] < m[k] }', use=['simplify'])
lemma('flat_kept', '(p: vec int) (alt: vec real) (np: vec int) (nalt: vec real) (n: int)', ['parents_ok p n', 'inner_mono p alt n', 'is_simplified p alt np nalt n', 'parents_ok np n'], ['forall lam a b. 0 <= a < n -> 0 <= b < n -> (flat np nalt n lam a b <-> flat p alt n lam a b)'],
      body='let ghost d = any vec bool ensures { simpl_with p alt np nalt n result } in let ghost m = any vec int ensures { simpl_by p alt np nalt n d result } in kept_inner p n d m; '
           'let lemma t1 (a: int) : unit requires { 0 <= a < n } ensures { forall k. 0 <= k < m.len -> (anc np k a <-> anc p m[k] a) } = kept_anc_up p n d np m a; kept_anc_down p n d np m a in '
           'let lemma t2 (lam: real) (v: int) : unit requires { n <= v < p.len /\\ alt[v] <=. lam } ensures { forall a b. 0 <= a < n -> 0 <= b < n -> anc p v a -> anc p v b -> flat np nalt n lam a b } = '
           '  let u = del_up p alt n d v in assert { mapped_to m u }; let ghost k = any int ensures { 0 <= result < m.len /\\ m[result] = u } in assert { k >= n }; let lemma t3 (a: int) : unit requires { 0 <= a < n /\\ anc p v a } ensures { anc p u a } = anc_trans p a v in assert { forall a. 0 <= a < n -> anc p v a -> anc np k a } in ()',
      use=['qfz'], lemmas=['kept_anc_up', 'kept_anc_down', 'del_up', 'anc_trans', 'kept_inner'])
lemma('qfz_strict', '(p: vec int) (alt: vec real) (np: vec int) (nalt: vec real) (n: int)', ['parents_ok p n', 'inner_mono p alt n', 'is_simplified p alt np nalt n', 'parents_ok np n'], ['forall k. n <= k < np.len - 1 -> nalt[k] <. nalt[np[k]]'],
      body='let ghost d = any vec bool ensures { simpl_with p alt np nalt n result } in let ghost m = any vec int ensures { simpl_by p alt np nalt n d result } in '
           'let lemma t (k: int) : unit requires { n <= k < np.len - 1 } ensures { nalt[k] <. nalt[np[k]] } = let v = m.elts k in kept_inner p n d m; assert { n <= v }; assert { not (del p n d v) }; assert { v < p.len - 1 }; assert { alt[v] <. alt[p[v]] }; inner_up p alt n (p.elts v); assert { anc p m[np[k]] v && anc p m[np[k]] p[v] } in ()', use=['qfz'], lemmas=['inner_up', 'kept_inner'])
lemma('simplified_intro', '(p: vec int) (alt: vec real) (np: vec int) (nalt: vec real) (n: int) (d: vec bool) (m: vec int)', ['flat_nodes p alt d', 'lists_kept p n d m', 'kept_parents p n d np m', 'nalt.len = m.len', 'forall k. 0 <= k < m.len -> nalt[k] = alt[m[k]]'], ['is_simplified p alt np nalt n'], use=['qfz'], body='assert { simpl_by p alt np nalt n d m }; assert { simpl_with p alt np nalt n d }')
lemma('qfz_result', LW + ' (np: vec int) (nalt: vec real)', ['is_bpt es w p alt em n', 'live_edges es n', 'is_simplified p alt np nalt n', 'parents_ok np n'],
      ['is_qfz es w np nalt n', 'threshold_components es w np nalt n', 'forall k. n <= k < np.len - 1 -> nalt[k] <. nalt[np[k]]'],
      body='flat_kept p alt np nalt n; qfz_strict p alt np nalt n; bpt_threshold es w p alt em n', use=['qfz'], lemmas=['flat_kept', 'qfz_strict', 'bpt_threshold'])
QT = 'result.node_weighted_tree_tree'; QA = 'result.node_weighted_tree_altitudes'
BT = 'bpt.node_weighted_tree_and_mst_tree.tree_parents'; BA = 'bpt.node_weighted_tree_and_mst_altitudes'; BM = 'bpt.node_weighted_tree_and_mst_mst_edge_map'
RT = 'res_.node_weighted_tree_tree.tree_parents'; RA = 'res_.node_weighted_tree_altitudes'
fn('hg::quasi_flat_zone_hierarchy', 'qfz', use=['qfz', 'tree'], sig='vecS', lemmas=['qfz_result', 'simplified_intro'], requires=['ug_ok graph', 'live_edges %s %s' % (ES, N), 'xedge_weights.len = %s.len' % ES, '1 <= ' + N],
   ensures=[('a tree whose leaves are the vertices', 'tree_ok {0} /\\ {0}.tree_num_leaves = {1} /\\ {2}.len = {0}.tree_parents.len'.format(QT, N, QA)), ('the binary partition tree without the inner nodes having the altitude of their parent', 'is_qfz {3} xedge_weights {0}.tree_parents {1} {2}'.format(QT, QA, N, ES)),
            ('two vertices belong to a same node of altitude at most lam exactly when edges of weight at most lam link them', 'threshold_components {3} xedge_weights {0}.tree_parents {1} {2}'.format(QT, QA, N, ES)),
            ('altitudes strictly increase from inner nodes to the root', 'forall k. {2} <= k < {0}.tree_parents.len - 1 -> {1}[k] <. {1}[{0}.tree_parents[k]]'.format(QT, QA, N)), ('only for a connected graph', 'connected %s %s' % (ES, N))], raises='not (connected %s %s)' % (ES, N),
   at={'before:propar': ['assert { is_bpt %s xedge_weights %s %s %s %s }' % (ES, BT, BA, BM, N)],
       'before:simplify_eq': ['assert { flat_nodes %s %s pw }' % (BT, BA)],
       'return': ['simplified_intro %s %s %s %s %s pw qfz.remapped_tree_node_map' % (BT, BA, RT, RA, N), 'qfz_result %s xedge_weights %s %s %s %s %s %s' % (ES, BT, BA, BM, N, RT, RA)]})
prop('C09', ['qfz', 'bpt', 'bpt_sorted', 'propar', 'simplify_eq', 'tree_new_m', 'stable_arg_sort_d', 'stable_arg_sort_d_less', 'uf_new', 'uf_find', 'uf_link'], lemmas=['linked_path', 'walk_linked', 'bpt_threshold', 'flat_kept', 'qfz_strict'], harness='C09.cpp')
