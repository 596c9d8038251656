# binary labelisation from markers
theory('markers', r'''
predicate has_mark (p: vec int) (nl: int) (m: vec int) (v: int) = exists l. 0 <= l < nl /\ m[l] <> 0 /\ anc p v l
(** a leaf in l, or one of the first k children in ch, has a marked leaf *)
predicate has_mark_ch (p: vec int) (nl: int) (m ch: vec int) (k: int) = exists j. 0 <= j < k /\ has_mark p nl m ch[j]
(** x encodes the presence of background (bit 0) and object without background (2), or both (3), 0: none *)
predicate codev (p: vec int) (nl: int) (o b: vec int) (v x: int) = 0 <= x <= 3 /\ ((x = 1 \/ x = 3) <-> has_mark p nl b v) /\ (x = 2 <-> has_mark p nl o v /\ not (has_mark p nl b v))
predicate codec (p: vec int) (nl: int) (o b ch: vec int) (k x: int) = 0 <= x <= 3 /\ ((x = 1 \/ x = 3) <-> has_mark_ch p nl b ch k) /\ (x = 2 <-> has_mark_ch p nl o ch k /\ not (has_mark_ch p nl b ch k))
predicate pure_object (p: vec int) (nl: int) (o b: vec int) (v: int) = has_mark p nl o v /\ not (has_mark p nl b v)
(** v is in a node with an object marker and no background marker *)
predicate in_object (p: vec int) (nl: int) (o b: vec int) (v: int) = exists r. 0 <= r < p.len /\ anc p r v /\ pure_object p nl o b r
''', deps=['anc'])
lemma('mark_leaf', '(p: vec int) (nl: int) (m: vec int) (l: int)', ['parents_ok p nl', '0 <= l < nl'], ['has_mark p nl m l <-> m[l] <> 0'], body='anc_le_leaf p nl p.len', use=['markers'], lemmas=['anc_le_leaf'])
lemma('mark_inner', '(p: vec int) (nl: int) (m ch: vec int) (pos: int -> int) (v: int)', ['parents_ok p nl', 'nl <= v < p.len', 'lists_children p pos v ch', 'forall u. 0 <= u < p.len - 1 -> p[u] = v -> 0 <= pos u < ch.len /\\ ch[pos u] = u'], ['has_mark p nl m v <-> has_mark_ch p nl m ch ch.len'],
      body='anc_children p v p.len; anc_ups p v p.len; assert { forall l c. 0 <= l < nl -> m[l] <> 0 -> 0 <= c < p.len - 1 -> p[c] = v -> anc p c l -> has_mark p nl m c && has_mark_ch p nl m ch ch.len }; assert { forall l. 0 <= l < nl -> anc p v l -> l <> v }', use=['markers'], lemmas=['anc_children', 'anc_ups'])
lemma('code_or', '(p: vec int) (nl: int) (o b ch: vec int) (k x y: int)', ['codec p nl o b ch k x', 'codev p nl o b ch[k] y', '0 <= k'], ['codec p nl o b ch (k + 1) (bit_or x y)'],
      body='assert { forall m. has_mark_ch p nl m ch (k + 1) <-> has_mark_ch p nl m ch k \\/ has_mark p nl m ch[k] }', use=['markers'])
lemma('object_up', '(p: vec int) (nl: int) (o b: vec int) (v: int)', ['parents_ok p nl', '0 <= v < p.len'], ['pure_object p nl o b v -> in_object p nl o b v', 'has_mark p nl b v -> not (in_object p nl o b v)', 'v < p.len - 1 -> not (pure_object p nl o b v) -> (in_object p nl o b v <-> in_object p nl o b p[v])', 'v = p.len - 1 -> in_object p nl o b v -> pure_object p nl o b v'],
      body='anc_ge p v; let lemma up (r l: int) : unit requires { anc p r v } requires { 0 <= l < nl } requires { anc p v l } ensures { anc p r l } = anc_trans p l v in  assert { forall r. v < p.len - 1 -> anc p r v -> r = v \\/ anc p r p[v] }', use=['markers'], lemmas=['anc_ge', 'anc_trans'])
OB = 'xobject_marker xbackground_marker'
CODE = lambda v, x: 'codev %s %s %s %s %s' % (P, NL, OB, v, x)
L3 = 'forall v. 0 <= v < %s -> attr[v] <= 2' % NL
MK = '%s %s' % (P, NL)
fn('hg::binary_labelisation_from_markers', 'markers', use=['markers'], lemmas=['mark_leaf', 'mark_inner', 'code_or', 'object_up'], requires=['tree_ok tree', 'xobject_marker.len = ' + NL, 'xbackground_marker.len = ' + NL],
   ensures=[('object iff in a node with an object marker and no background marker', 'result.len = {1} /\\ forall l. 0 <= l < {1} -> (result[l] = 1 \\/ result[l] = 0) /\\ (result[l] = 1 <-> in_object {0} {1} {2} l)'.format(P, NL, OB))],
   at={'entry': ['let ghost omk = xobject_marker in', 'let ghost bmk = xbackground_marker in'], 'loop1.begin': ['mark_leaf %s omk i_it; mark_leaf %s bmk i_it' % (MK, MK)],
       'loop2.begin': ['let ghost pos = any int -> int ensures { children_ok %s tree.tree_children result } in' % MK, 'let ghost ch0 = tree.tree_children.elts (i_it_1 - %s) in' % NL, 'mark_inner %s omk ch0 pos i_it_1; mark_inner %s bmk ch0 pos i_it_1' % (MK, MK)],
       'loop3.begin': ['let ghost x0 = attr.elts i_it_1 in', 'code_or %s omk bmk ch0 c_it x0 (attr.elts (ch0.elts c_it))' % MK],
       'loop2.post': ['assert { %s }' % CODE('(%s - 1)' % NV, 'attr[%s - 1]' % NV)], 'loop4.pre': ['object_up %s omk bmk (%s - 1)' % (MK, NV), 'assert { attr[%s - 1] = 2 <-> in_object %s omk bmk (%s - 1) }' % (NV, MK, NV)],
       'loop4.begin': ['object_up %s omk bmk i_it_2' % MK], 'return': ['let lemma fin (l: int) : unit requires { 0 <= l < %s } ensures { 1 <= attr[l] <= 2 } = mark_leaf %s omk l; mark_leaf %s bmk l; object_up %s omk bmk l in ()' % (NL, MK, MK, MK)]},
   loops={1: dict(inv=['0 <= i_it <= i_end', L3, 'forall v. i_it <= v < %s -> attr[v] = 0' % NV, 'forall v. 0 <= v < i_it -> ' + CODE('v', 'attr[v]')]),
          2: dict(inv=['%s <= i_it_1 <= i_end_1' % NL, L3, 'forall v. i_it_1 <= v < %s -> attr[v] = 0' % NV, 'forall v. 0 <= v < i_it_1 -> ' + CODE('v', 'attr[v]')]),
          3: dict(inv=['0 <= c_it <= c_end', L3, 'forall v. i_it_1 < v < %s -> attr[v] = 0' % NV, 'forall v. 0 <= v < i_it_1 -> ' + CODE('v', 'attr[v]'), 'codec %s %s %s ch0 c_it attr[i_it_1]' % (P, NL, OB)]),
          4: dict(inv=['-1 <= i_it_2 < %s - 1' % NV, L3, 'forall v. 0 <= v <= i_it_2 -> ' + CODE('v', 'attr[v]'), 'forall v. i_it_2 < v < %s -> 1 <= attr[v] <= 3 /\\ (attr[v] = 2 <-> in_object %s %s %s v)' % (NV, P, NL, OB)])})
prop('C25', ['markers'], lemmas=['mark_leaf', 'mark_inner', 'code_or', 'object_up'], harness='C25.cpp')
