# simplify_tree (hierarchy/hierarchy_core.hpp)
P8 = 't.tree_parents'; N8 = 't.tree_parents.len'; L8 = 't.tree_num_leaves'
theory('simplify', r'''
(** node deleted by the criterion d: inner nodes but the root *)
predicate del (p: vec int) (nl: int) (d: vec bool) (v: int) = nl <= v < p.len - 1 /\ d[v] = True
(** w is an ancestor-or-self (a proper ancestor) of v and only deleted nodes are in between *)
predicate del_upto (p: vec int) (nl: int) (d: vec bool) (v w: int) = anc p w v /\ 0 <= w < p.len /\ forall b. anc p b v -> b < w -> del p nl d b
predicate del_btw (p: vec int) (nl: int) (d: vec bool) (v w: int) = v < w /\ anc p w v /\ 0 <= w < p.len /\ forall b. anc p b v -> v < b < w -> del p nl d b
predicate mapped_to (m: vec int) (v: int) = exists k. 0 <= k < m.len /\ m[k] = v
(** m lists the nodes that are not deleted in increasing order *)
predicate lists_kept (p: vec int) (nl: int) (d: vec bool) (m: vec int) =
  (forall k. 0 <= k < m.len -> 0 <= m[k] < p.len /\ not (del p nl d m[k])) /\ (forall k. 0 <= k < nl -> m[k] = k) /\ (forall k l. 0 <= k < l < m.len -> m[k] < m[l]) /\
  (forall v. 0 <= v < p.len -> not (del p nl d v) -> mapped_to m v)
(** np is the parent relation where the parent of a kept node is its closest kept proper ancestor *)
predicate kept_parents (p: vec int) (nl: int) (d: vec bool) (np m: vec int) =
  np.len = m.len /\ nl <= m.len /\ 1 <= m.len /\ m[m.len - 1] = p.len - 1 /\ np[m.len - 1] = m.len - 1 /\
  forall k. 0 <= k < m.len - 1 -> 0 <= np[k] < m.len /\ del_btw p nl d m[k] m[np[k]]
predicate kept_child (p: vec int) (nl: int) (d: vec bool) (w: int) = exists v. 0 <= v < w /\ not (del p nl d v) /\ del_btw p nl d v w
''', deps=['keep'])
lemma('kept_child_find', '(p: vec int) (nl: int) (d: vec bool) (u w: int)', ['parents_ok p nl', 'd.len = p.len', '0 <= u < w < p.len', 'del_btw p nl d u w'], ['kept_child p nl d w'],
      body='if pure { del p nl d u } then begin assert { has_child p u }; let ghost c = any int ensures { 0 <= result < p.len - 1 /\\ p[result] = u } in anc_ge p u; assert { forall b. anc p b c -> b = c \\/ anc p b u }; assert { forall b. anc p b u -> b = u \\/ b > u }; kept_child_find p nl d c w end',
      rec=True, variant='u', use=['simplify'], lemmas=['anc_ge'])
lemma('kept_has_child', '(p: vec int) (nl: int) (d: vec bool) (w: int)', ['parents_ok p nl', 'd.len = p.len', 'nl <= w < p.len'], ['kept_child p nl d w'],
      body='assert { has_child p w }; let ghost c = any int ensures { 0 <= result < p.len - 1 /\\ p[result] = w } in anc_ge p w; assert { forall b. anc p b c -> b = c \\/ anc p b w }; kept_child_find p nl d c w', use=['simplify'], lemmas=['anc_ge', 'kept_child_find'])
lemma('del_btw_uniq', '(p: vec int) (nl: int) (d: vec bool) (v: int)', ['parents_up p', '0 <= v < p.len'],
      ['forall w x. del_btw p nl d v w -> del_btw p nl d v x -> not (del p nl d w) -> not (del p nl d x) -> w = x'], body='anc_ge p v', use=['simplify'], lemmas=['anc_ge'])
lemma('simplified_child', '(p: vec int) (nl: int) (d: vec bool) (np m: vec int) (k: int)', ['parents_ok p nl', 'd.len = p.len', 'lists_kept p nl d m', 'kept_parents p nl d np m', 'nl <= k < m.len'], ['has_child np k'],
      body='kept_has_child p nl d (m.elts k); let ghost v = any int ensures { 0 <= result < m[k] /\\ not (del p nl d result) /\\ del_btw p nl d result m[k] } in assert { mapped_to m v }; '
           'let ghost j = any int ensures { 0 <= result < m.len /\\ m[result] = v } in del_btw_uniq p nl d v; assert { j < m.len - 1 }; assert { m[np[j]] = m[k] }; assert { np[j] = k }', use=['simplify'], lemmas=['kept_has_child', 'del_btw_uniq'])
lemma('simplified_children', '(p: vec int) (nl: int) (d: vec bool) (np m: vec int) (k: int)', ['parents_ok p nl', 'd.len = p.len', 'lists_kept p nl d m', 'kept_parents p nl d np m', 'nl <= k <= m.len'], ['forall w. k <= w < m.len -> has_child np w'],
      body='if k < m.len then begin simplified_children p nl d np m (k + 1); simplified_child p nl d np m k end', rec=True, variant='m.len - k', use=['simplify'], lemmas=['simplified_child'])
lemma('simplified_tree', '(p: vec int) (nl: int) (d: vec bool) (np m: vec int)', ['parents_ok p nl', 'd.len = p.len', 'lists_kept p nl d m', 'kept_parents p nl d np m'], ['parents_ok np nl'],
      body='simplified_children p nl d np m nl; anc_le_leaf p nl p.len; assert { forall k l. 0 <= k < m.len -> 0 <= l < m.len -> m[k] < m[l] -> k < l }; '
           'assert { forall k. 0 <= k < m.len - 1 -> nl <= m[np[k]] }', use=['simplify'], lemmas=['simplified_children', 'anc_le_leaf'])
lemma('leaves_uniq', '(p: vec int) (k l: int)', ['parents_ok p k', 'parents_ok p l'], ['k = l'], body='assert { k < l -> has_child p k }; assert { l < k -> has_child p l }', use=['simplify'])
def who(bound, R='new_ranks', C='count'):
    return ['forall k. 0 <= k < %s -> 0 <= who k < %s /\\ not (del %s %s xcr (who k)) /\\ %s[who k] = k' % (C, bound, P8, L8, R), 'forall k. 0 <= k < %s -> who k = k' % L8, 'forall k l. 0 <= k < l < %s -> who k < who l' % C,
            'forall v. 0 <= v < %s -> not (del %s %s xcr v) -> 0 <= %s[v] < %s /\\ who %s[v] = v' % (bound, P8, L8, R, C, R)]
def cr(x): return [a.replace('xcr', 'criterion') for a in x]
for w, sig in (('simplify', r'uvector<bool'), ('simplify_eq', r'xfunction<')):
    fn('hg::simplify_tree', w, sig=sig, use=['simplify'], lemmas=['simplified_tree', 'anc_ge', 'leaves_uniq'], const={'process_leaves': 'false'}, requires=['tree_ok t', 'criterion.len = ' + N8, 'process_leaves = False'],
       ensures=[('same leaves', 'result.remapped_tree_tree.tree_num_leaves = ' + L8), ('a valid tree', 'tree_ok result.remapped_tree_tree'),
                ('kept nodes, in order', 'lists_kept %s %s criterion result.remapped_tree_node_map' % (P8, L8)),
                ('parent: closest kept ancestor', 'kept_parents %s %s criterion result.remapped_tree_tree.tree_parents result.remapped_tree_node_map' % (P8, L8)), ('category', 'result.remapped_tree_tree.tree_category = t.tree_category')],
       at={'entry': ['let ghost ref who = (fun (k: int) -> k) in'], 'loop1.begin': ['if not (criterion.elts i_it) then who <- Map.set who count i_it'],
           'loop2.pre': ['if %s < %s then who <- Map.set who (new_parent.len - 1) (%s - 1)' % (L8, N8, N8)] + ['assert { %s }' % a for a in cr(who(N8, C='new_parent.len'))] + ['assert { who (new_parent.len - 1) = %s - 1 }' % N8],
           'loop2.begin': ['assert { not (del %s %s criterion i_it_1) -> new_ranks_at2[i_it_1] = count /\\ who count = i_it_1 }' % (P8, L8), 'anc_ge %s (%s.elts i_it_1)' % (P8, P8), 'assert { forall b. anc %s b i_it_1 -> b = i_it_1 \\/ anc %s b %s[i_it_1] }' % (P8, P8, P8), 'assert { forall b. anc %s b %s[i_it_1] -> anc %s b i_it_1 }' % (P8, P8, P8)],
           'loop2.post': ['assert { 0 <= count -> who count <= -1 }', 'assert { count = -1 }', 'assert { forall k. 0 <= k < new_parent.len -> node_map[k] = who k }', 'assert { forall v. 0 <= v < %s -> not (del %s %s criterion v) -> 0 <= new_ranks_at2[v] < node_map.len /\\ node_map[new_ranks_at2[v]] = v }' % (N8, P8, L8), 'assert { lists_kept %s %s criterion node_map }' % (P8, L8), 'assert { kept_parents %s %s criterion new_parent node_map }' % (P8, L8), 'simplified_tree %s %s criterion new_parent node_map' % (P8, L8)],
           'return': ['leaves_uniq new_parent %s r_tree_new_m.tree_num_leaves' % L8]},
       loops={1: dict(inv=['%s <= i_it <= i_end' % L8, '%s <= count <= i_it' % L8] + cr(who('i_it'))),
              2: dict(inv=['-1 <= i_it_1 < %s - 1' % N8, '-1 <= count < new_parent.len - 1', 'forall k. 0 <= k <= count -> who k <= i_it_1', 'forall k. count < k < new_parent.len -> who k > i_it_1',
                           'forall v. 0 <= v <= i_it_1 -> new_ranks[v] = new_ranks_at2[v]', 'forall v. i_it_1 < v < %s -> 0 <= new_ranks[v] < new_parent.len /\\ del_upto %s %s criterion v (who new_ranks[v])' % (N8, P8, L8),
                           'new_parent[new_parent.len - 1] = new_parent.len - 1', 'forall k. count < k < new_parent.len -> node_map[k] = who k',
                           'forall k. count < k < new_parent.len - 1 -> 0 <= new_parent[k] < new_parent.len /\\ del_btw %s %s criterion (who k) (who new_parent[k])' % (P8, L8)])})
prop('C08', ['simplify', 'simplify_eq'], lemmas=['leaves_uniq', 'kept_child_find', 'kept_has_child', 'del_btw_uniq', 'simplified_child', 'simplified_children', 'simplified_tree'], harness='C08.cpp', bounded=['process_leaves = true (outside the statement): random trees up to 12 leaves'])
