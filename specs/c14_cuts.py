# leaf reconstruction and horizontal cuts
theory('cuts', '''
(** a is the lowest common ancestor of u and v *)
predicate is_lca (p: vec int) (u v a: int) = anc p a u /\\ anc p a v /\\ forall b. anc p b u -> anc p b v -> anc p b a
predicate increasing_alt (p: vec int) (alt: vec real) = forall u. 0 <= u < p.len -> alt[u] <=. alt[p[u]]
(** w is the highest ancestor-or-self of i reached through parents of altitude at most th *)
predicate cut_node (p: vec int) (alt: vec real) (th: real) (i w: int) = anc p w i /\\ 0 <= w < p.len /\\ (w = p.len - 1 \\/ not (alt[p[w]] <=. th)) /\\ forall b. anc p b i -> b < w -> alt[p[b]] <=. th
(** the labels of the nl leaves are exactly 0 .. k-1 *)
predicate used_label (r: vec int) (nl q: int) = exists l. 0 <= l < nl /\\ r[l] = q
predicate labels_onto (r: vec int) (nl k: int) = (forall l. 0 <= l < nl -> 0 <= r[l] < k) /\\ forall q. 0 <= q < k -> used_label r nl q
(** two leaves have the same label iff the altitude of their lowest common ancestor is at most th *)
predicate same_label (p: vec int) (alt: vec real) (th: real) (r: vec int) (k m: int) = forall i j a. 0 <= i < k -> 0 <= j < m -> i <> j -> is_lca p i j a -> (r[i] = r[j] <-> alt[a] <=. th)
''', deps=['anc', 'keep'])
lemma('anc_ges', '(p: vec int) (k: int)', ['parents_up p', '0 <= k <= p.len'], ['forall v a. 0 <= v < k -> anc p a v -> v <= a < p.len'], body='if 0 < k then begin anc_ges p (k - 1); anc_ge p (k - 1) end', rec=True, variant='k', use=['cuts'], lemmas=['anc_ge'])
lemma('anc_last', '(p: vec int) (w v: int)', ['parents_up p', '0 <= v < p.len', 'anc p w v', 'w <> v'], ['exists b. 0 <= b < w /\\ p[b] = w /\\ anc p b v'],
      body='anc_ge p v; if p.elts v <> w then anc_last p w (p.elts v)', rec=True, variant='p.len - v', use=['cuts'], lemmas=['anc_ge'])
lemma('below_lca', '(p: vec int) (alt: vec real) (th: real) (a v: int)', ['parents_up p', 'alt.len = p.len', 'increasing_alt p alt', '0 <= v < p.len', 'anc p a v', 'alt[a] <=. th'], ['forall b. anc p b v -> b < a -> alt[p[b]] <=. th'],
      body='anc_ge p v; if v <> a then begin below_lca p alt th a (p.elts v); anc_mono p alt (p.elts v); assert { anc p a p[v] } end', rec=True, variant='p.len - v', use=['cuts'], lemmas=['anc_ge', 'anc_mono'])
# the cut node of a descendant of a low node is above that node
lemma('cut_above', '(p: vec int) (alt: vec real) (th: real) (a i w: int)', ['parents_up p', 'alt.len = p.len', 'increasing_alt p alt', '0 <= i < p.len', 'anc p a i', 'alt[a] <=. th', 'cut_node p alt th i w'], ['cut_node p alt th a w'],
      body='anc_ge p i; below_lca p alt th a i; anc_linear p i a; anc_trans p i a; anc_ge p w; assert { anc p a w -> w >= a }; assert { anc p a w -> w = a \\/ anc p w a };  assert { anc p w a }', use=['cuts'], lemmas=['anc_ge', 'below_lca', 'anc_linear', 'anc_trans'])
lemma('cut_uniq', '(p: vec int) (alt: vec real) (th: real) (a w w2: int)', ['parents_up p', '0 <= a < p.len', 'cut_node p alt th a w', 'cut_node p alt th a w2'], ['w = w2'], body='anc_ge p a', use=['cuts'], lemmas=['anc_ge'])
lemma('cut_label', '(p: vec int) (nl: int) (alt: vec real) (th: real) (i j a wi wj: int)',
      ['parents_ok p nl', 'alt.len = p.len', 'increasing_alt p alt', '0 <= i < nl', '0 <= j < nl', 'i <> j', 'is_lca p i j a', 'cut_node p alt th i wi', 'cut_node p alt th j wj'], ['wi = wj <-> alt[a] <=. th'],
      body='anc_ge p i; anc_ge p j; anc_le_leaf p nl p.len;'
           'if pure { alt[a] <=. th } then begin cut_above p alt th a i wi; cut_above p alt th a j wj; cut_uniq p alt th a wi wj end '
           'else if pure { wi = wj } then begin anc_last p wi i; assert { alt[wi] <=. th }; assert { anc p wi a }; anc_mono p alt a end',
      use=['cuts'], lemmas=['anc_ge', 'cut_above', 'cut_uniq', 'anc_le_leaf', 'anc_mono', 'anc_last'])
lemma('cut_labels', '(p: vec int) (nl: int) (alt: vec real) (th: real) (r: vec int) (k m: int)',
      ['parents_ok p nl', 'alt.len = p.len', 'increasing_alt p alt', 'forall v. 0 <= v < nl -> cut_node p alt th v r[v]', '0 <= k <= nl', '0 <= m <= nl'], ['same_label p alt th r k m'],
      body='if 0 < k then begin cut_labels p nl alt th r (k - 1) m; if 0 < m then begin cut_labels p nl alt th r k (m - 1); '
           'if k <> m && pure { exists a. is_lca p (k - 1) (m - 1) a } then begin let ghost a = any int ensures { is_lca p (k - 1) (m - 1) result } in cut_label p nl alt th (k - 1) (m - 1) a (r.elts (k - 1)) (r.elts (m - 1)); anc_ges p p.len; assert { forall b. is_lca p (k - 1) (m - 1) b -> anc p a b /\\ anc p b a }; '
           'assert { forall b. is_lca p (k - 1) (m - 1) b -> b = a } end end end', rec=True, variant='k + m', use=['cuts'], lemmas=['cut_label', 'anc_ges'])
lemma('onto_wit', '(r: vec int) (wit: int -> int) (nl k: int)', ['0 <= k', 'forall q. 0 <= q < k -> 0 <= wit q < nl /\\ r[wit q] = q', 'forall l. 0 <= l < nl -> 0 <= r[l]'],
      ['forall q. 0 <= q < k -> used_label r nl q', '(forall l. 0 <= l < nl -> r[l] < k) -> labels_onto r nl k'],
      body='if 0 < k then begin onto_wit r wit nl (k - 1); let ghost w = wit (k - 1) in assert { 0 <= w < nl /\\ r[w] = k - 1 } end', rec=True, variant='k', use=['cuts'])
KEPT = [('one value per leaf', 'result.len = ' + NL), ('value of the closest ancestor-or-self that is not deleted', 'forall l. 0 <= l < %s -> result[l] = xaltitudes_[keep %s xdel_ l] /\\ kept %s xdel_ l (keep %s xdel_ l)' % (NL, P, P, P))]
for w, sig in (('reconstruct', 'uvector<double.*uvector<bool'), ('reconstruct_cut', 'arange_generator.*less_equal')):
    fn('hg::reconstruct_leaf_data', w, sig=sig, use=['cuts'], requires=['tree_ok tree', 'altitudes.len = ' + NV, 'deleted_nodes.len = ' + NV],
       ensures=[(a, b.replace('xaltitudes_', 'altitudes').replace('xdel_', 'deleted_nodes')) for a, b in KEPT])
CUT = [('tree_ok tree'), 'xaltitudes.len = ' + NV, 'increasing_alt %s xaltitudes' % P]
for w, sig, th in (('hcut', 'const double', 'threshold'), ('hcut_i', 'const int', '(from_int threshold)')):
    fn('hg::labelisation_horizontal_cut_from_threshold', w, sig=sig, use=['cuts'], lemmas=['cut_labels', 'anc_ges'], requires=CUT,
       ensures=[('one label per leaf', 'result.len = ' + NL), ('labels are nodes', 'forall l. 0 <= l < %s -> 0 <= result[l] < %s' % (NL, NV)),
                ('label: highest node of the cut', 'forall l. 0 <= l < %s -> cut_node %s xaltitudes %s l result[l]' % (NL, P, th)), ('same label iff the lowest common ancestor is at most the threshold', 'same_label %s xaltitudes %s result %s %s' % (P, th, NL, NL))],
       at={'return': ['anc_ges %s %s' % (P, NV), 'assert { forall v. 0 <= v < %s -> cut_node %s xaltitudes %s v res_[v] }' % (NL, P, th), 'cut_labels %s %s xaltitudes %s res_ %s %s' % (P, NL, th, NL, NL),]})
fn('hg::labelisation_hierarchy_supervertices', 'supervertices', use=['cuts'], lemmas=['onto_wit'], requires=CUT,
   ensures=[('one label per leaf', 'result.len = ' + NL), ('same label iff the lowest common ancestor has altitude zero', 'same_label %s xaltitudes 0.0 result %s %s' % (P, NL, NL)),
            ('labels are 0 .. k-1, all used', 'exists k. labels_onto result %s k' % NL)],
   at={'call:hcut_i': ['let ghost l0 = r_hcut_i in', 'let ghost ref wit = (fun (_: int) -> 0) in'], 'loop1.begin': ['if pure { map_[labels[n_it]] = -1 } then wit <- Map.set wit current_label n_it'],
       'return': ['onto_wit res_ wit %s current_label' % NL]},
   loops={1: dict(inv=['0 <= n_it <= ' + NL, '0 <= current_label <= n_it', 'forall l. n_it <= l < %s -> labels[l] = l0[l]' % NL, 'forall l. 0 <= l < n_it -> 0 <= labels[l] < current_label /\\ map_[l0[l]] = labels[l]',
      'forall w. 0 <= w < %s -> map_[w] = -1 \\/ 0 <= map_[w] < current_label /\\ l0[wit map_[w]] = w' % NV, 'forall q. 0 <= q < current_label -> 0 <= wit q < n_it /\\ labels[wit q] = q'])})
prop('C14', ['reconstruct', 'reconstruct_cut', 'hcut', 'hcut_i', 'supervertices', 'proseq', 'proseqa'], harness='C14.cpp', bounded=['supervertices_hierarchy (breadth first renumbering with a queue): random trees up to 12 leaves'])
