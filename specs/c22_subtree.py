# sub_tree
theory('subtree', r'''
predicate in_sub (p: vec int) (r v: int) = 0 <= v < p.len /\ anc p r v
predicate img (m: vec int) (n v: int) = exists k. 0 <= k < n /\ m[k] = v
(** m lists the nodes below r in increasing order and np is the parent relation on their ranks *)
predicate sub_nodes (p: vec int) (r: int) (m: vec int) = 1 <= m.len /\ m[m.len - 1] = r /\ (forall k. 0 <= k < m.len -> in_sub p r m[k]) /\ (forall k l. 0 <= k < l < m.len -> m[k] < m[l]) /\ forall v. in_sub p r v -> img m m.len v
predicate sub_parents (p: vec int) (m np: vec int) = np.len = m.len /\ np[m.len - 1] = m.len - 1 /\ forall k. 0 <= k < m.len - 1 -> 0 <= np[k] < m.len /\ m[np[k]] = p[m[k]]
predicate under (p: vec int) (f: int -> int) (n v: int) = exists i. 0 <= i < n /\ anc p (f i) v
(** the nodes below r: those of done and those below the pairwise disjoint f 0 .. f (n - 1) *)
predicate sub_work (p: vec int) (r: int) (done_: int -> bool) (f: int -> int) (n: int) =
  (forall v. done_ v -> in_sub p r v) /\ (forall i. 0 <= i < n -> in_sub p r (f i)) /\ (forall i v. 0 <= i < n -> 0 <= v < p.len -> anc p (f i) v -> not (done_ v)) /\
  (forall i j. 0 <= i < n -> 0 <= j < n -> i <> j -> not (anc p (f i) (f j))) /\ forall v. in_sub p r v -> done_ v \/ under p f n v
function cat (s: vec int) (l: vec int) (c: int) : int -> int = fun i -> if i < s.len then s[i] else l[c + i - s.len]
predicate no_node (done_: int -> bool) = forall v. not (done_ v)
predicate same_set (a b: int -> bool) = forall v. a v <-> b v
predicate sub_upto (p: vec int) (r: int) (done_: int -> bool) (rk: int -> int) (m: vec int) (rank: int) =
  (forall v. done_ v -> in_sub p r v /\ rank < rk v < m.len /\ m[rk v] = v) /\ (forall k. rank < k < m.len -> done_ m[k]) /\ (forall k l. rank < k < l < m.len -> m[k] < m[l]) /\
  (forall v. done_ v -> v <> r -> done_ p[v])
(** the waiting nodes q: each one below the processed nodes, with the rank of its parent *)
predicate waiting (p: vec int) (r: int) (done_: int -> bool) (m: vec int) (rank: int) (q: vec qe) =
  (forall i. 0 <= i < q.len -> in_sub p r q[i].qe_node /\ (q[i].qe_node = r /\ q[i].qe_parent_rank = m.len - 1 /\ no_node done_ \/ q[i].qe_node <> r /\ done_ p[q[i].qe_node] /\ rank < q[i].qe_parent_rank < m.len /\ m[q[i].qe_parent_rank] = p[q[i].qe_node])) /\
  (forall i j. 0 <= i < j < q.len -> q[i].qe_node < q[j].qe_node) /\ forall i v. 0 <= i < q.len -> done_ v -> q[i].qe_node < v
predicate is_waiting (q: vec qe) (v: int) = exists i. 0 <= i < q.len /\ q[i].qe_node = v
predicate all_waiting (p: vec int) (r: int) (done_: int -> bool) (q: vec qe) (x: int) = (done_ r \/ is_waiting q r) /\ forall v. in_sub p r v -> v <> r -> done_ p[v] -> p[v] <> x -> done_ v \/ is_waiting q v
predicate np_upto (p: vec int) (r: int) (m np: vec int) (rank: int) = (rank < m.len - 1 -> np[m.len - 1] = m.len - 1 /\ m[m.len - 1] = r) /\ forall k. rank < k < m.len - 1 -> k < np[k] < m.len /\ m[np[k]] = p[m[k]]
''', recs=['qe'], deps=['anc'])
theory('subtree_count', r'''
let rec ghost function cntb (b: int -> bool) (k: int) : int variant { k } = if k <= 0 then 0 else cntb b (k - 1) + (if b (k - 1) then 1 else 0)
''', deps=['subtree'])
lemma('cntb_set', '(a b: int -> bool) (x k: int)', ['not (a x)', 'forall v. b v <-> a v \\/ v = x'], ['cntb b k = cntb a k + (if 0 <= x < k then 1 else 0)'], body='if k > 0 then cntb_set a b x (k - 1)', rec=True, variant='if k < 0 then 0 else k', use=['subtree_count'])
lemma('cntb_sub', '(a b: int -> bool) (k: int)', ['forall v. 0 <= v < k -> a v -> b v', '0 <= k'], ['0 <= cntb a k <= cntb b k <= k'], body='if k > 0 then cntb_sub a b (k - 1)', rec=True, variant='if k < 0 then 0 else k', use=['subtree_count'])
lemma('cntb_lt', '(a b: int -> bool) (x k: int)', ['forall v. 0 <= v < k -> a v -> b v', '0 <= x < k', 'b x', 'not (a x)'], ['cntb a k < cntb b k'], body='if x = k - 1 then cntb_sub a b (k - 1) else cntb_lt a b x (k - 1)', rec=True, variant='if k < 0 then 0 else k', use=['subtree_count'], lemmas=['cntb_sub'])
lemma('cntb_none', '(a: int -> bool) (k: int)', ['no_node a'], ['cntb a k = 0'], body='if k > 0 then cntb_none a (k - 1)', rec=True, variant='if k < 0 then 0 else k', use=['subtree_count'])
lemma('sub_ext', '(p: vec int) (r: int) (d: int -> bool) (f g: int -> int) (n: int)', ['sub_work p r d f n', 'forall i. 0 <= i < n -> f i = g i'], ['sub_work p r d g n'],
      body='assert { forall v. under p f n v -> under p g n v }', use=['subtree'])
lemma('sub_closed', '(p: vec int) (r: int) (d: int -> bool) (v: int)', ['parents_up p', '0 <= v < p.len', 'anc p r v', 'd r', 'forall u. in_sub p r u -> u <> r -> d p[u] -> d u'], ['d v'], body='if v <> r then sub_closed p r d (p.elts v)', rec=True, variant='p.len - v', use=['subtree'])
# the node x taken from the work list is replaced by its children
lemma('sub_pop', '(p: vec int) (nl r: int) (ch: vec (vec int)) (pos: int -> int) (d d2: int -> bool) (f: int -> int) (n: int) (st l: vec int) (x: int)',
      ['parents_ok p nl', 'children_ok p nl ch pos', '0 <= r < p.len', 'sub_work p r d f n', '0 < n', 'st.len = n - 1', 'forall i. 0 <= i < n - 1 -> st[i] = f i', 'x = f (n - 1)', 'forall v. d2 v <-> d v \\/ v = x', 'if x < nl then l.len = 0 else l = ch[x - nl]'],
      ['not (d x)', 'in_sub p r x', 'sub_work p r d2 (cat st l 0) (n - 1 + l.len)'],
      body='let ghost g = cat st l 0 in let ghost m = n - 1 + l.len in if x >= nl then begin let ghost w = x - nl in assert { lists_children p pos (w + nl) ch[w] } end; assert { forall j. 0 <= j < l.len -> 0 <= l[j] < x /\\ p[l[j]] = x /\\ l[j] < p.len - 1 }; assert { forall j k. 0 <= j < k < l.len -> l[j] < l[k] }; assert { forall i. 0 <= i < n - 1 -> g i = f i }; assert { forall i. n - 1 <= i < m -> g i = l[i - (n - 1)] /\\ p[g i] = x /\\ 0 <= g i < x }; '
           'let lemma up (v: int) : unit requires { 0 <= v < p.len } ensures { forall a. anc p a v -> v <= a < p.len } = anc_ge p v in '
           'let lemma tr (i: int) : unit requires { n - 1 <= i < m } ensures { forall v. 0 <= v < p.len -> anc p (g i) v -> anc p x v } = (let lemma t (v: int) : unit requires { 0 <= v < p.len } requires { anc p (g i) v } ensures { anc p x v } = anc_trans p v (g i) in ()) in '
           'let lemma cov (v: int) : unit requires { 0 <= v < p.len } requires { anc p x v } requires { v <> x } ensures { under p g m v } = (anc_last p x v; let ghost c = any int ensures { 0 <= result < x /\\ p[result] = x /\\ anc p result v } in assert { x >= nl }; assert { g (n - 1 + pos c) = c }; assert { anc p (g (n - 1 + pos c)) v }) in '
           'assert { not (d x) /\\ in_sub p r x }; assert { forall v. d2 v -> in_sub p r v }; assert { forall i. n - 1 <= i < m -> anc p x (g i) }; let lemma insub (i: int) : unit requires { 0 <= i < m } ensures { in_sub p r (g i) } = (if i >= n - 1 then anc_trans p (g i) x) in '
           'assert { forall i v. 0 <= i < m -> 0 <= v < p.len -> anc p (g i) v -> not (d v) }; assert { forall i. 0 <= i < m -> not (anc p (g i) x) }; '
           'let lemma indep (i j: int) : unit requires { 0 <= i < m } requires { 0 <= j < m } requires { i <> j } requires { anc p (g i) (g j) } ensures { false } = (if i < n - 1 && j >= n - 1 then (anc_linear p (g j) x; assert { anc p (f i) x \\/ anc p x (f i) }) else if i >= n - 1 && j < n - 1 then (assert { anc p x (f j) }) else if i >= n - 1 then (assert { anc p (g i) x })) in '
           'assert { forall v. under p f n v -> not (anc p x v) -> under p g m v }',
      use=['subtree'], lemmas=['anc_ge', 'anc_trans', 'anc_linear', 'anc_last'])
SQ = '(p: vec int) (nl r: int) (d d2: int -> bool) (rk rk2: int -> int) (m m2 np np2: vec int) (rank: int)'
lemma('sub_take', SQ + ' (q q1: vec qe) (x: int)', ['parents_ok p nl', '0 <= r < p.len', '0 <= rank < m.len', 'sub_upto p r d rk m rank', 'np_upto p r m np rank', 'waiting p r d m rank q', 'all_waiting p r d q (-1)', '0 < q.len', 'no_node d -> rank = m.len - 1', 'not (no_node d) -> rank < m.len - 1', 'x = q[q.len - 1].qe_node', 'q1.len = q.len - 1', 'forall i. 0 <= i < q1.len -> q1[i] = q[i]',
      'forall v. d2 v <-> d v \\/ v = x', 'forall v. rk2 v = (if v = x then rank else rk v)', 'm2.len = m.len', 'forall k. m2[k] = (if k = rank then x else m[k])', 'forall k. np2[k] = (if k = rank then q[q.len - 1].qe_parent_rank else np[k])'],
      ['not (d x)', 'in_sub p r x', 'sub_upto p r d2 rk2 m2 (rank - 1)', 'np_upto p r m2 np2 (rank - 1)', 'waiting p r d2 m2 (rank - 1) q1', 'all_waiting p r d2 q1 x', 'd2 x', 'm2[rank] = x', 'forall u. 0 <= u < p.len - 1 -> p[u] = x -> not (is_waiting q1 u) /\\ not (d2 u)'],
      body='assert { forall v. d v -> x < v }; assert { x <> r -> d p[x] }; assert { x = r -> no_node d }; assert { forall i. 0 <= i < q1.len -> q[i].qe_node < x }; assert { forall i. 0 <= i < q1.len -> not (no_node d) /\\ q[i].qe_node <> r }; assert { forall v. is_waiting q v -> v = x \\/ is_waiting q1 v }; assert { forall i. 0 <= i < q1.len -> d p[q[i].qe_node] }; assert { forall v. d v -> v <> r -> d p[v] }; let ghost pr = q[q.len - 1].qe_parent_rank in if rank = m.len - 1 then begin assert { x = r /\\ pr = m.len - 1 } end else begin assert { x <> r /\\ rank < pr < m.len /\\ m[pr] = p[x] }; assert { m2[pr] = p[x] }; assert { m2[m.len - 1] = r } end; assert { forall k. rank < k < m.len - 1 -> m2[np2[k]] = m[np[k]] }; assert { forall k. rank - 1 < k < m.len - 1 -> k < np2[k] < m.len /\\ m2[np2[k]] = p[m2[k]] }', use=['subtree'])
lemma('sub_push', '(p: vec int) (r: int) (d: int -> bool) (m: vec int) (rank: int) (q q2: vec qe) (x c k: int)', ['waiting p r d m (rank - 1) q', 'all_waiting p r d q x', '0 <= c < p.len - 1', 'in_sub p r c', 'c <> r', 'p[c] = x', 'd x', '0 <= rank < m.len', 'm[rank] = x', 'not (is_waiting q c)', 'forall v. d v -> x <= v', 'c < x', '0 <= k <= q.len', 'q2.len = q.len + 1',
      'forall i. 0 <= i < k -> q2[i] = q[i] /\\ q[i].qe_node <= c', 'forall i. k < i < q2.len -> q2[i] = q[i - 1]', 'forall i. k <= i < q.len -> q[i].qe_node >= c', 'q2[k].qe_node = c', 'q2[k].qe_parent_rank = rank'],
      ['waiting p r d m (rank - 1) q2', 'all_waiting p r d q2 x', 'forall v. is_waiting q2 v <-> is_waiting q v \\/ v = c'],
      body='let lemma sh (i: int) : unit requires { 0 <= i < q2.len } ensures { if i < k then q2[i] = q[i] /\\ q2[i].qe_node < c else if i = k then q2[i].qe_node = c else q2[i] = q[i - 1] /\\ q2[i].qe_node > c /\\ 0 <= i - 1 < q.len } = (if i < k then assert { is_waiting q q[i].qe_node } else if i > k then assert { is_waiting q q[i - 1].qe_node }) in '
      'let lemma w1 (v: int) : unit requires { is_waiting q v } ensures { is_waiting q2 v } = (let ghost i = any int ensures { 0 <= result < q.len /\\ q[result].qe_node = v } in if i < k then assert { q2[i] = q[i] } else assert { q2[i + 1] = q[i] }) in '
      'assert { forall v. is_waiting q2 v -> is_waiting q v \\/ v = c }; assert { is_waiting q2 c }; assert { forall i. 0 <= i < q2.len -> i <> k -> exists j. 0 <= j < q.len /\\ q2[i] = q[j] }', use=['subtree'])
lemma('sub_done', '(p: vec int) (nl r: int) (all_ d: int -> bool) (rk: int -> int) (m np: vec int) (rank: int) (q: vec qe)', ['parents_ok p nl', '0 <= r < p.len', 'sub_upto p r d rk m rank', 'np_upto p r m np rank', 'np.len = m.len', 'all_waiting p r d q (-1)', 'q.len = 0', 'forall v. all_ v <-> in_sub p r v', 'm.len = cntb all_ p.len', 'rank = m.len - 1 - cntb d p.len'],
      ['rank = -1', 'sub_nodes p r m', 'sub_parents p m np'], body='let lemma cl (v: int) : unit requires { in_sub p r v } ensures { d v } = sub_closed p r d v in cntb_sub d all_ p.len; cntb_sub all_ d p.len; assert { d r }; assert { 0 <= rk r < m.len }; assert { m[m.len - 1] = r }; assert { forall v. in_sub p r v -> img m m.len v }', use=['subtree_count'], lemmas=['cntb_sub', 'sub_closed'])
lemma('split_at', '(m: vec int) (nl k: int)', ['0 <= k <= m.len', 'forall i j. 0 <= i < j < m.len -> m[i] < m[j]'], ['0 <= s <= k', 'forall i. 0 <= i < s -> m[i] < nl', 'forall i. s <= i < k -> m[i] >= nl'], ret='(s: int)', body='if k = 0 then 0 else begin let ghost s = split_at m nl (k - 1) in if m.elts (k - 1) < nl then k else s end', rec=True, variant='k', use=['subtree'])
lemma('sub_valid', '(p: vec int) (nl r: int) (m np: vec int)', ['parents_ok p nl', '0 <= r < p.len', 'sub_nodes p r m', 'sub_parents p m np'], ['parents_ok np nl2'], ret='(nl2: int)',
      body='let ghost nl2 = split_at m nl m.len in let lemma kid (k: int) : unit requires { 0 <= k < m.len } requires { nl <= m[k] } ensures { has_child np k } ensures { 0 < k } = '
      '(let ghost v = m.elts k in assert { has_child p v }; let ghost c = any int ensures { 0 <= result < p.len - 1 /\\ p[result] = v } in anc_ge p v; anc_trans p c v; assert { anc p v c }; assert { in_sub p r c }; let ghost j = any int ensures { 0 <= result < m.len /\\ m[result] = c } in assert { c < v }; assert { j < k }; assert { m[np[j]] = m[k] }; assert { np[j] = k }) in '
      'assert { forall k l. 0 <= k < m.len -> 0 <= l < m.len -> m[k] < m[l] -> k < l }; if nl2 = 0 then kid 0; assert { nl2 > 0 }; assert { forall k. 0 <= k < m.len - 1 -> m[k] < p[m[k]] }; assert { forall k. 0 <= k < m.len - 1 -> nl <= m[np[k]] }; nl2', use=['subtree'], lemmas=['anc_trans', 'anc_ge', 'split_at'])
P = 'tree.tree_parents'; NL = 'tree.tree_num_leaves'
fn('hg::sub_tree', 'subtree', use=['subtree_count'], lemmas=['cntb_set', 'cntb_sub', 'cntb_lt', 'cntb_none', 'sub_ext', 'sub_pop', 'sub_take', 'sub_push', 'sub_done', 'sub_valid', 'anc_ge', 'children_at', 'anc_trans'], requires=['tree_ok tree', '0 <= root < %s.len' % P],
   ensures=[('a valid tree', 'tree_ok result.remapped_tree_tree'), ('category', 'result.remapped_tree_tree.tree_category = tree.tree_category'), ('the nodes below the root, in increasing order', 'sub_nodes %s root result.remapped_tree_node_map' % P),
            ('same parent relation', 'sub_parents %s result.remapped_tree_node_map result.remapped_tree_tree.tree_parents' % P)],
   at={'decl:num_nodes': ['let ghost pos = any int -> int ensures { children_ok %s %s tree.tree_children result } in' % (P, NL), 'let ghost ref done_ = (fun (_: int) -> False) in', 'let ghost ref all_ = done_ in', 'anc_ge %s root' % P, 'cntb_none done_ %s.len' % P],
       'loop1.pre': ['assert { sub_work %s root done_ stack.elts 1 }' % P],
       'loop1.begin': ['let ghost st0 = stack in', 'let ghost d0 = done_ in', 'cntb_sub done_ done_ %s.len' % P],
       'loop2.pre': ['done_ <- Map.set done_ node True', 'cntb_set d0 done_ node %s.len' % P, 'sub_pop %s %s root tree.tree_children pos d0 done_ st0.elts st0.len stack c node' % (P, NL)],
       'loop2.begin': ['let ghost sta = stack in'],
       'loop2.end': ['sub_ext %s root done_ (cat sta c (c_it - 1)) (cat stack c c_it) (stack.len + c.len - c_it)' % P],
       'loop2.post': ['sub_ext %s root done_ (cat stack c c_it) stack.elts stack.len' % P, 'cntb_sub done_ done_ %s.len' % P],
       'loop1.post': ['all_ <- done_', 'cntb_sub all_ all_ %s.len' % P, 'assert { forall v. all_ v <-> in_sub %s root v }' % P],
       'loop3.pre': ['let ghost ref d = (fun (_: int) -> False) in', 'let ghost ref rk = (fun (_: int) -> 0) in', 'cntb_none d %s.len' % P, 'assert { no_node d }', 'cntb_lt d all_ root %s.len' % P, 'assert { priority_queue.len = 1 /\\ priority_queue[0].qe_node = root /\\ priority_queue[0].qe_parent_rank = rank }', 'assert { is_waiting priority_queue root }'],
       'loop3.begin': ['let ghost d0 = d in', 'let ghost rk0 = rk in', 'let ghost m0 = node_map in', 'let ghost np0 = new_parents in', 'let ghost q0 = priority_queue in', 'let ghost x = (q0.elts (q0.len - 1)).qe_node in', 'assert { forall v. d v -> x < v }', 'cntb_lt d all_ x %s.len' % P, 'cntb_sub d d %s.len' % P],
       'loop4.pre': ['d <- Map.set d x True', 'rk <- Map.set rk x rank', 'sub_take %s %s root d0 d rk0 rk m0 node_map np0 new_parents rank q0 priority_queue x' % (P, NL), 'cntb_set d0 d x %s.len' % P, 'cntb_sub d d %s.len' % P, 'if x >= %s then children_at %s %s tree.tree_children pos x' % (NL, P, NL), 'anc_ge %s x' % P],
       'loop4.begin': ['let ghost qa = priority_queue in', 'let ghost cc = c_1.elts c_it_1 in', 'assert { 0 <= cc < %s.len - 1 /\\ %s[cc] = x }' % (P, P), 'anc_trans %s cc x' % P, 'assert { anc %s x cc }' % P],
       'loop4.end': ['sub_push %s root d node_map rank qa priority_queue x cc pq_1_pos' % P],
       'loop3.post': ['sub_done %s %s root all_ d rk node_map new_parents rank priority_queue' % (P, NL)],
       'before:tree_new_m': ['let ghost nl2 = sub_valid %s %s root node_map new_parents in' % (P, NL)]},
   loops={1: dict(inv=['0 <= stack.len', 'sub_work %s root done_ stack.elts stack.len' % P, 'num_nodes = cntb done_ %s.len' % P], var='%s.len - num_nodes' % P),
          2: dict(inv=['0 <= c_it <= c_end', '0 <= stack.len', 'sub_work %s root done_ (cat stack c c_it) (stack.len + c.len - c_it)' % P]),
          3: dict(inv=['0 <= priority_queue.len', 'sub_upto %s root d rk node_map rank' % P, 'np_upto %s root node_map new_parents rank' % P, 'waiting %s root d node_map rank priority_queue' % P, 'all_waiting %s root d priority_queue (-1)' % P, 'rank = node_map.len - 1 - cntb d %s.len' % P, 'no_node d -> rank = node_map.len - 1', 'not (no_node d) -> rank < node_map.len - 1'], var='rank + 1'),
          4: dict(inv=['0 <= c_it_1 <= c_end_1', '0 <= priority_queue.len', 'waiting %s root d node_map (rank - 1) priority_queue' % P, 'all_waiting %s root d priority_queue x' % P, 'forall j. 0 <= j < c_it_1 -> is_waiting priority_queue c_1[j]', 'forall j. c_it_1 <= j < c_1.len -> not (is_waiting priority_queue c_1[j])'])})
prop('C22', ['subtree'], lemmas=['cntb_set', 'cntb_sub', 'cntb_lt', 'cntb_none', 'sub_ext', 'sub_closed', 'sub_pop', 'sub_take', 'sub_push', 'sub_done', 'split_at', 'sub_valid', 'children_at'], harness='C22.cpp')
