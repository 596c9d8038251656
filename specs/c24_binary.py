# tree_2_binary_tree
theory('binary', r'''
predicate two_children (p: vec int) (v: int) = exists a b. 0 <= a < b < p.len - 1 /\ p[a] = v /\ p[b] = v
predicate only_two (p: vec int) (v: int) = exists a b. 0 <= a < p.len - 1 /\ 0 <= b < p.len - 1 /\ a <> b /\ p[a] = v /\ p[b] = v /\ forall c. 0 <= c < p.len - 1 -> p[c] = v -> c = a \/ c = b
function nch (ch: vec (vec int)) (nl v: int) : int = (ch[v - nl]).len
predicate is_image (m: vec int) (v: int) = exists x. 0 <= x < m.len /\ m[x] = v
function btop (bs: int -> int) (nl v: int) : int = if v < nl then v else bs (v + 1) - 1
(** the new nodes built from the nodes below i *)
predicate block_of (bs: int -> int) (nl: int) (v x: int) = if v < nl then x = v else bs v <= x < bs (v + 1)
predicate bin_upto (p: vec int) (nl: int) (bs: int -> int) (pos: int -> int) (np nm rm: vec int) (i: int) =
  (forall v. 0 <= v < i -> nm[v] = btop bs nl v) /\
  (forall x. 0 <= x < bs i -> 0 <= rm[x] < i /\ block_of bs nl rm[x] x) /\
  (forall v. 0 <= v < p.len - 1 -> p[v] < i -> np[btop bs nl v] = bs p[v] + max 0 (pos v - 1)) /\
  (forall x. 0 <= x < bs i -> x < btop bs nl rm[x] -> np[x] = x + 1)
(** inside the node i, whose first c children are done *)
predicate bin_part (p: vec int) (nl: int) (bs: int -> int) (pos: int -> int) (np rm: vec int) (i c cur: int) =
  cur = bs i + c - 2 /\ (forall x. bs i <= x < cur -> rm[x] = i /\ np[x] = x + 1) /\ forall v. 0 <= v < p.len - 1 -> p[v] = i -> pos v < c -> np[btop bs nl v] = bs i + max 0 (pos v - 1)
predicate bin_shape (p: vec int) (nl: int) (ch: vec (vec int)) (pos: int -> int) = parents_ok p nl /\ children_ok p nl ch pos /\ forall v. nl <= v < p.len -> 2 <= nch ch nl v
predicate bs_steps (p: vec int) (nl: int) (ch: vec (vec int)) (bs: int -> int) = forall j k. nl <= j -> k = j + 1 -> k <= p.len -> bs k = bs j + nch ch nl j - 1
predicate bin_facts (p: vec int) (nl: int) (ch: vec (vec int)) (bs: int -> int) = (forall i j. nl <= i < j <= p.len -> bs i + 1 <= bs j) /\ bs_steps p nl ch bs /\ bs nl = nl /\ bs p.len = 2 * nl - 1
''', deps=['tree'])
theory('binary_count', r'''
(** number of nodes below m whose parent is below k / is k *)
let rec ghost function cbelow (p: vec int) (k m: int) : int variant { m } = if m <= 0 then 0 else cbelow p k (m - 1) + (if p.elts (m - 1) < k then 1 else 0)
let rec ghost function cequal (p: vec int) (k m: int) : int variant { m } = if m <= 0 then 0 else cequal p k (m - 1) + (if p.elts (m - 1) = k then 1 else 0)
(** first new node of the node k: the leaves come first and every internal node with c children is turned into c - 1 nodes *)
let rec ghost function bsz (ch: vec (vec int)) (nl k: int) : int variant { k - nl } = if k <= nl then nl else bsz ch nl (k - 1) + (ch.elts (k - 1 - nl)).len - 1
''', deps=['binary'])
BP = '(p: vec int) (nl: int) (ch: vec (vec int)) (pos: int -> int)'
lemma('children_at', BP + ' (k: int)', ['children_ok p nl ch pos', 'nl <= k < p.len'], ['lists_children p pos k ch[k - nl]', 'forall u. 0 <= u < p.len - 1 -> p[u] = k -> 0 <= pos u < nch ch nl k /\\ ch[k - nl][pos u] = u'], body='let ghost w = k - nl in assert { lists_children p pos (w + nl) ch[w] }', use=['binary'])
lemma('rank_last', '(l: vec int) (q u j: int)', ['0 <= j <= l.len', 'forall i j. 0 <= i < j < l.len -> l[i] < l[j]', '0 <= q < l.len', 'l[q] = u', 'forall i. 0 <= i < j -> l[i] < u + 1', 'forall i. j <= i < l.len -> l[i] >= u + 1'], ['q = j - 1'], body='assert { q < j }; assert { q < j - 1 -> l[q] < l[j - 1] }', use=['binary'])
lemma('rank_zero', '(p: vec int) (pos: int -> int) (l: vec int) (k j: int)', ['lists_children p pos k l', '0 <= j <= l.len', 'forall i. 0 <= i < j -> l[i] < 0'], ['j = 0'], body='assert { 0 < j -> 0 <= l[0] }', use=['binary'])
lemma('rank_no', '(p: vec int) (pos: int -> int) (l: vec int) (k u: int)', ['lists_children p pos k l', 'p[u] <> k'], ['forall i. 0 <= i < l.len -> l[i] <> u'], use=['binary'])
lemma('count_eq', '(p: vec int) (nl: int) (ch: vec (vec int)) (pos: int -> int) (k m j: int)', ['children_ok p nl ch pos', 'nl <= k < p.len', '0 <= m <= p.len - 1', '0 <= j <= nch ch nl k', 'forall i. 0 <= i < j -> ch[k - nl][i] < m', 'forall i. j <= i < nch ch nl k -> ch[k - nl][i] >= m'], ['cequal p k m = j'],
      body='children_at p nl ch pos k; if m > 0 then (if p.elts (m - 1) = k then begin rank_last (ch.elts (k - nl)) (pos (m - 1)) (m - 1) j; count_eq p nl ch pos k (m - 1) (j - 1) end else begin rank_no p pos (ch.elts (k - nl)) k (m - 1); count_eq p nl ch pos k (m - 1) j end) else rank_zero p pos (ch.elts (k - nl)) k j', rec=True, variant='m', use=['binary_count'], lemmas=['children_at', 'rank_last', 'rank_no', 'rank_zero'])
lemma('below_step', '(p: vec int) (k m: int)', [], ['cbelow p (k + 1) m = cbelow p k m + cequal p k m'], body='if m > 0 then below_step p k (m - 1)', rec=True, variant='if m < 0 then 0 else m', use=['binary_count'])
lemma('below_none', '(p: vec int) (k m: int)', ['forall u. 0 <= u < m -> k <= p[u]'], ['cbelow p k m = 0'], body='if m > 0 then below_none p k (m - 1)', rec=True, variant='if m < 0 then 0 else m', use=['binary_count'])
lemma('below_all', '(p: vec int) (k m: int)', ['forall u. 0 <= u < m -> p[u] < k', '0 <= m'], ['cbelow p k m = m'], body='if m > 0 then below_all p k (m - 1)', rec=True, variant='if m < 0 then 0 else m', use=['binary_count'])
lemma('bs_count', BP + ' (bs cb: int -> int) (k: int)', ['nl <= k <= p.len', 'bs_steps p nl ch bs', 'bs nl = nl', 'cb nl = 0', 'forall j k. nl <= j -> k = j + 1 -> k <= p.len -> cb k = cb j + nch ch nl j'], ['bs k = 2 * nl - k + cb k'],
      body='if nl < k then bs_count p nl ch pos bs cb (k - 1)', rec=True, variant='k - nl', use=['binary'])
lemma('bs_mono', BP + ' (bs: int -> int) (k: int)', ['nl <= k <= p.len', 'bin_shape p nl ch pos', 'bs_steps p nl ch bs'], ['forall j. nl <= j < k -> bs j + 1 <= bs k'], body='if nl < k then bs_mono p nl ch pos bs (k - 1)', rec=True, variant='k - nl', use=['binary'])
lemma('bs_order', BP + ' (bs: int -> int) (k: int)', ['nl <= k <= p.len', 'bin_shape p nl ch pos', 'bs_steps p nl ch bs'], ['forall i j. nl <= i < j <= k -> bs i + 1 <= bs j'], body='bs_mono p nl ch pos bs k; if nl < k then bs_order p nl ch pos bs (k - 1)', rec=True, variant='k - nl', use=['binary'], lemmas=['bs_mono'])
lemma('cb_step', BP + ' (k: int)', ['bin_shape p nl ch pos', 'nl <= k < p.len'], ['cbelow p (k + 1) (p.len - 1) = cbelow p k (p.len - 1) + nch ch nl k'], body='below_step p k (p.len - 1); children_at p nl ch pos k; count_eq p nl ch pos k (p.len - 1) (ch.elts (k - nl)).len', use=['binary_count'], lemmas=['below_step', 'count_eq', 'children_at'])
lemma('bsz_step', BP + ' (k: int)', ['nl <= k'], ['bsz ch nl (k + 1) = bsz ch nl k + nch ch nl k - 1'], use=['binary_count'])
lemma('bs_facts', BP + ' (bs cb: int -> int)', ['bin_shape p nl ch pos', 'bs_steps p nl ch bs', 'bs nl = nl', 'cb nl = 0', 'cb p.len = p.len - 1', 'forall j k. nl <= j -> k = j + 1 -> k <= p.len -> cb k = cb j + nch ch nl j'], ['bin_facts p nl ch bs'], body='bs_count p nl ch pos bs cb p.len; bs_order p nl ch pos bs p.len', use=['binary'], lemmas=['bs_count', 'bs_order'])
lemma('bsz_facts', BP, ['bin_shape p nl ch pos'], ['bin_facts p nl ch bs'], ret='(bs: int -> int)', body='let ghost bs = pure { fun k -> bsz ch nl k } in let ghost cb = pure { fun k -> cbelow p k (p.len - 1) } in '
      'let lemma st (k: int) : unit requires { nl <= k < p.len } ensures { bs (k + 1) = bs k + nch ch nl k - 1 } = bsz_step p nl ch pos k in let lemma sc (k: int) : unit requires { nl <= k < p.len } ensures { cb (k + 1) = cb k + nch ch nl k } = cb_step p nl ch pos k in '
      'below_none p nl (p.len - 1); below_all p p.len (p.len - 1); assert { bs_steps p nl ch bs }; bs_facts p nl ch pos bs cb; bs', use=['binary_count'], lemmas=['bs_facts', 'bsz_step', 'cb_step', 'below_none', 'below_all'])
lemma('bin_bounds', BP + ' (bs: int -> int)', ['bin_shape p nl ch pos', 'bin_facts p nl ch bs'], ['forall i. nl <= i <= p.len -> nl <= bs i <= 2 * nl - 1', 'forall v w. 0 <= v < w < p.len -> btop bs nl v < btop bs nl w', 'forall v. 0 <= v < p.len -> 0 <= btop bs nl v < 2 * nl - 1', 'forall v. nl <= v < p.len -> bs v <= btop bs nl v',
   'forall i v. nl <= i <= p.len -> 0 <= v < i -> btop bs nl v < bs i'], body='assert { forall i. nl < i -> i <= p.len -> bs nl + 1 <= bs i }; assert { forall i. nl <= i < p.len -> bs i + 1 <= bs p.len }; assert { forall v w. nl <= v < w < p.len -> bs (v + 1) <= bs w }', use=['binary'])
BA = BP + ' (bs: int -> int) (np nm rm: vec int)'
# one more child done inside the node i
lemma('bin_child', BA + ' (i c cur: int) (np2 rm2: vec int)', ['bin_shape p nl ch pos', 'bin_facts p nl ch bs', 'nl <= i < p.len', '2 <= c < nch ch nl i', 'bin_upto p nl bs pos np nm rm i', 'bin_part p nl bs pos np rm i c cur', 'rm2[cur] = i', 'forall x. x <> cur -> rm2[x] = rm[x]',
       'forall x. x <> cur -> x <> btop bs nl ch[i - nl][c] -> np2[x] = np[x]', 'np2[cur] = cur + 1', 'np2[btop bs nl ch[i - nl][c]] = cur + 1'], ['bin_upto p nl bs pos np2 nm rm2 i', 'bin_part p nl bs pos np2 rm2 i (c + 1) (cur + 1)'],
      body='bin_bounds p nl ch pos bs; children_at p nl ch pos i; let ghost u = ch[i - nl].elts c in assert { p[u] = i /\\ u < i }; assert { btop bs nl u < bs i }; assert { forall v. 0 <= v < i -> btop bs nl v < bs i }; assert { forall v. 0 <= v < p.len -> v <> u -> btop bs nl v <> btop bs nl u }; '
           'assert { forall x. 0 <= x < bs i -> x < btop bs nl rm[x] -> x <> btop bs nl u }; assert { forall v. 0 <= v < p.len - 1 -> p[v] = i -> pos v = c -> v = u }; assert { forall x. bs i <= x < cur + 1 -> rm2[x] = i /\\ np2[x] = x + 1 }; assert { pos u = c /\\ np2[btop bs nl u] = bs i + max 0 (pos u - 1) }; '
           'assert { forall v. 0 <= v < p.len - 1 -> v <> u -> p[v] = i -> btop bs nl v <> btop bs nl u /\\ btop bs nl v < bs i /\\ np2[btop bs nl v] = np[btop bs nl v] }', use=['binary'], lemmas=['bin_bounds', 'children_at'])
lemma('bin_start', BA + ' (i: int) (np2: vec int)', ['bin_shape p nl ch pos', 'bin_facts p nl ch bs', 'nl <= i < p.len', 'bin_upto p nl bs pos np nm rm i', 'forall x. x <> btop bs nl ch[i - nl][0] -> x <> btop bs nl ch[i - nl][1] -> np2[x] = np[x]', 'np2[btop bs nl ch[i - nl][0]] = bs i', 'np2[btop bs nl ch[i - nl][1]] = bs i'],
      ['bin_upto p nl bs pos np2 nm rm i', 'bin_part p nl bs pos np2 rm i 2 (bs i)'],
      body='bin_bounds p nl ch pos bs; children_at p nl ch pos i; let ghost u = ch[i - nl].elts 0 in let ghost w = ch[i - nl].elts 1 in assert { p[u] = i /\\ u < i /\\ p[w] = i /\\ w < i }; assert { forall v. 0 <= v < p.len -> v <> u -> btop bs nl v <> btop bs nl u }; assert { forall v. 0 <= v < p.len -> v <> w -> btop bs nl v <> btop bs nl w }; '
           'assert { forall x. 0 <= x < bs i -> x < btop bs nl rm[x] -> x <> btop bs nl u /\\ x <> btop bs nl w }; assert { forall v. 0 <= v < p.len - 1 -> p[v] = i -> (pos v = 0 -> v = u) /\\ (pos v = 1 -> v = w) }', use=['binary'], lemmas=['bin_bounds', 'children_at'])
lemma('bin_next', BA + ' (i cur: int) (nm2 rm2: vec int)', ['bin_shape p nl ch pos', 'bin_facts p nl ch bs', 'nl <= i < p.len', 'bin_upto p nl bs pos np nm rm i', 'bin_part p nl bs pos np rm i (nch ch nl i) cur', 'nm2[i] = cur', 'forall v. v <> i -> nm2[v] = nm[v]', 'rm2[cur] = i', 'forall x. x <> cur -> rm2[x] = rm[x]'],
      ['bin_upto p nl bs pos np nm2 rm2 (i + 1)', 'cur + 1 = bs (i + 1)'], body='bin_bounds p nl ch pos bs; children_at p nl ch pos i; assert { cur = btop bs nl i }', use=['binary'], lemmas=['bin_bounds', 'children_at'])
lemma('bin_uniq', BA + ' (x: int)', ['bin_shape p nl ch pos', 'bin_facts p nl ch bs', 'bin_upto p nl bs pos np nm rm p.len', '0 <= x < 2 * nl - 2'], ['let v = rm[x] in 0 <= v < p.len /\\ if x = btop bs nl v then v < p.len - 1 /\\ np[x] = bs p[v] + max 0 (pos v - 1) /\\ block_of bs nl p[v] np[x] else nl <= v /\\ np[x] = x + 1 /\\ block_of bs nl v np[x]'],
      body='bin_bounds p nl ch pos bs; let ghost v = rm.elts x in assert { block_of bs nl v x }; if x = btop bs nl v then begin assert { v < p.len - 1 }; let ghost k = p.elts v in children_at p nl ch pos k; assert { bs (k + 1) = bs k + nch ch nl k - 1 }; assert { block_of bs nl k np[x] } end else begin assert { nl <= v /\\ bs v <= x /\\ x < bs (v + 1) - 1 }; assert { np[x] = x + 1 } end', use=['binary'], lemmas=['bin_bounds', 'children_at'])
lemma('block_uniq', BP + ' (bs: int -> int) (v w x: int)', ['bin_shape p nl ch pos', 'bin_facts p nl ch bs', '0 <= v < p.len', '0 <= w < p.len', 'block_of bs nl v x', 'block_of bs nl w x'], ['v = w'], body='bin_bounds p nl ch pos bs', use=['binary'], lemmas=['bin_bounds'])
BE = ['bin_shape p nl ch pos', 'bin_facts p nl ch bs', 'bin_upto p nl bs pos np nm rm p.len', 'np.len = 2 * nl - 1', 'rm.len = 2 * nl - 1', 'np[2 * nl - 2] = 2 * nl - 2']
lemma('bin_two', BA + ' (y: int)', BE + ['nl <= y < 2 * nl - 1'], ['only_two np y'],
      body='bin_bounds p nl ch pos bs; let ghost v = rm.elts y in assert { block_of bs nl v y /\\ nl <= v }; children_at p nl ch pos v; let ghost k = y - bs v in let ghost u2 = ch[v - nl].elts (k + 1) in let ghost u0 = ch[v - nl].elts 0 in let ghost c2 = btop bs nl u2 in let ghost c1 = if k = 0 then btop bs nl u0 else y - 1 in '
           'assert { 0 <= k /\\ k + 1 < nch ch nl v }; assert { p[u2] = v /\\ pos u2 = k + 1 /\\ u2 < v /\\ p[u0] = v /\\ pos u0 = 0 /\\ u0 < v }; if k > 0 then block_uniq p nl ch pos bs v (rm.elts (y - 1)) (y - 1); assert { np[c1] = y }; assert { np[c2] = y }; assert { c1 <> c2 }; '
           'let lemma only (c: int) : unit requires { 0 <= c < 2 * nl - 2 } requires { np[c] = y } ensures { c = c1 \\/ c = c2 } = bin_uniq p nl ch pos bs np nm rm c; let ghost w = rm.elts c in if c = btop bs nl w then begin block_uniq p nl ch pos bs v (p.elts w) y; assert { pos w = k + 1 \\/ pos w = 0 } end else begin block_uniq p nl ch pos bs v w y; assert { c = y - 1 } end in '
           'assert { 0 <= c1 < np.len - 1 /\\ 0 <= c2 < np.len - 1 }', use=['binary'], lemmas=['bin_bounds', 'children_at', 'bin_uniq', 'block_uniq'])
lemma('bin_up', BA + ' (x: int)', BE + ['0 <= x < 2 * nl - 2'], ['x < np[x] < 2 * nl - 1', 'nl <= np[x]', 'rm[np[x]] = rm[x] \\/ rm[np[x]] = p[rm[x]]', '0 <= rm[x] < p.len'],
      body='bin_bounds p nl ch pos bs; bin_uniq p nl ch pos bs np nm rm x; let ghost v = rm.elts x in if x = btop bs nl v then block_uniq p nl ch pos bs (p.elts v) (rm.elts (np.elts x)) (np.elts x) else block_uniq p nl ch pos bs v (rm.elts (np.elts x)) (np.elts x)', use=['binary'], lemmas=['bin_bounds', 'bin_uniq', 'block_uniq'])
lemma('bin_img', BA + ' (v: int)', BE + ['0 <= v < p.len'], ['is_image rm v'], body='bin_bounds p nl ch pos bs; let ghost x = btop bs nl v in block_uniq p nl ch pos bs v (rm.elts x) x', use=['binary'], lemmas=['bin_bounds', 'block_uniq'])
lemma('bin_ok', '(np: vec int) (nl: int)', ['1 <= nl', 'np.len = 2 * nl - 1', 'np[2 * nl - 2] = 2 * nl - 2', 'forall x. 0 <= x < 2 * nl - 2 -> x < np[x] < 2 * nl - 1 /\\ nl <= np[x]', 'forall y. nl <= y < 2 * nl - 1 -> has_child np y'], ['parents_ok np nl'], use=['binary'])
lemma('bin_tree', BA, BE, ['parents_ok np nl', 'forall y. nl <= y < np.len -> only_two np y', 'forall x. 0 <= x < rm.len - 1 -> 0 <= rm[x] < p.len /\\ (rm[np[x]] = rm[x] \\/ rm[np[x]] = p[rm[x]])', 'forall l. 0 <= l < nl -> rm[l] = l', 'rm[rm.len - 1] = p.len - 1', 'forall v. 0 <= v < p.len -> is_image rm v'],
      body='bin_bounds p nl ch pos bs; let lemma two (y: int) : unit requires { nl <= y < 2 * nl - 1 } ensures { only_two np y } ensures { has_child np y } = bin_two p nl ch pos bs np nm rm y in let lemma up (x: int) : unit requires { 0 <= x < 2 * nl - 2 } ensures { x < np[x] < 2 * nl - 1 } ensures { nl <= np[x] } '
           'ensures { rm[np[x]] = rm[x] \\/ rm[np[x]] = p[rm[x]] } ensures { 0 <= rm[x] < p.len } = bin_up p nl ch pos bs np nm rm x in let lemma img (v: int) : unit requires { 0 <= v < p.len } ensures { is_image rm v } = bin_img p nl ch pos bs np nm rm v in '
           'let lemma lf (l: int) : unit requires { 0 <= l < nl } ensures { rm[l] = l } = block_uniq p nl ch pos bs l (rm.elts l) l in block_uniq p nl ch pos bs (p.len - 1) (rm.elts (2 * nl - 2)) (2 * nl - 2); bin_ok np nl', use=['binary'], lemmas=['bin_bounds', 'bin_two', 'bin_up', 'bin_img', 'block_uniq', 'bin_ok'])

TP = 'tree.tree_parents'; TL = 'tree.tree_num_leaves'; TN = 'tree.tree_parents.len'
RT = 'result.remapped_tree_tree'; RM = 'result.remapped_tree_node_map'
CK = '%s %s tree.tree_children pos' % (TP, TL)
lemma('two_child_lists', BP, ['parents_ok p nl', 'children_ok p nl ch pos', 'forall v. nl <= v < p.len -> two_children p v'], ['bin_shape p nl ch pos'],
      body='let lemma two (v: int) : unit requires { nl <= v < p.len } ensures { 2 <= nch ch nl v } = assert { two_children p v }; children_at p nl ch pos v; let ghost a = any int ensures { 0 <= result < p.len - 1 /\\ p[result] = v /\\ exists b. result < b < p.len - 1 /\\ p[b] = v } in '
      'let ghost b = any int ensures { a < result < p.len - 1 /\\ p[result] = v } in assert { pos a <> pos b } in ()', use=['binary'], lemmas=['children_at'])
UP = '%s %s bs pos new_parents node_map reverse_node_map' % (TP, TL)
fn('hg::tree_2_binary_tree', 'tree2bin', use=['binary'], lemmas=['bsz_facts', 'bin_bounds', 'bin_start', 'bin_child', 'bin_next', 'bin_tree', 'leaves_uniq', 'children_at', 'two_child_lists'],
   requires=['tree_ok tree', 'forall v. %s <= v < %s -> two_children %s v' % (TL, TN, TP)],
   ensures=[('a valid tree', 'tree_ok %s' % RT), ('same leaves', '%s.tree_num_leaves = %s' % (RT, TL)), ('category', '%s.tree_category = tree.tree_category' % RT),
            ('2 n - 1 nodes', '%s.tree_parents.len = 2 * %s - 1 /\\ %s.len = 2 * %s - 1' % (RT, TL, RM, TL)), ('every internal node has two children', 'forall y. %s <= y < %s.tree_parents.len -> only_two %s.tree_parents y' % (TL, RT, RT)),
            ('node map: identity on the leaves, root to root, in range', '(forall l. 0 <= l < %s -> %s[l] = l) /\\ %s[%s.len - 1] = %s - 1 /\\ forall x. 0 <= x < %s.len -> 0 <= %s[x] < %s' % (TL, RM, RM, RM, TN, RM, RM, TN)),
            ('node map: onto', 'forall v. 0 <= v < %s -> is_image %s v' % (TN, RM)),
            ('node map: the parent of a node is mapped to the same node or to its parent', 'forall x. 0 <= x < %s.len - 1 -> %s[%s.tree_parents[x]] = %s[x] \\/ %s[%s.tree_parents[x]] = %s[%s[x]]' % (RM, RM, RT, RM, RM, RT, TP, RM))],
   at={'decl:cur_par_index': ['let ghost pos = any int -> int ensures { children_ok %s %s tree.tree_children result } in' % (TP, TL), 'two_child_lists ' + CK, 'let ghost bs = bsz_facts %s in' % CK, 'bin_bounds %s bs' % CK],
       'loop2.begin': ['children_at %s i_it' % CK, 'let ghost np0 = new_parents in', 'let ghost nm0 = node_map in', 'let ghost rm0 = reverse_node_map in', 'let ghost ref rm2 = reverse_node_map in'],
       'loop3.pre': ['bin_start %s bs np0 node_map reverse_node_map i_it new_parents' % CK],
       'loop3.begin': ['let ghost np1 = new_parents in', 'let ghost rm1 = reverse_node_map in', 'let ghost cur1 = cur_par_index in'],
       'loop3.end': ['bin_child %s bs np1 node_map rm1 i_it (c - 1) cur1 new_parents reverse_node_map' % CK],
       'loop3.post': ['rm2 <- reverse_node_map'],
       'loop2.end': ['bin_next %s bs new_parents nm0 rm2 (i_it - 1) (cur_par_index - 1) node_map reverse_node_map' % CK],
       'before:tree_new': ['let ghost npf = new_parents in', 'bin_tree %s bs npf node_map reverse_node_map' % CK],
       'return': ['leaves_uniq new_parents %s r_tree_new.tree_num_leaves' % TL]},
   loops={1: dict(inv=['0 <= i <= %s' % TL, 'forall l. 0 <= l < i -> node_map[l] = l /\\ reverse_node_map[l] = l']),
          2: dict(inv=['%s <= i_it <= %s' % (TL, TN), 'cur_par_index = bs i_it', 'bin_upto %s i_it' % UP]),
          3: dict(inv=['2 <= c <= num_c', 'bin_upto %s i_it' % UP, 'bin_part %s %s bs pos new_parents reverse_node_map i_it c cur_par_index' % (TP, TL)])})
prop('C24', ['tree2bin'], lemmas=['children_at', 'rank_last', 'rank_zero', 'rank_no', 'count_eq', 'below_step', 'below_none', 'below_all', 'bs_count', 'bs_mono', 'bs_order', 'cb_step', 'bsz_step', 'bs_facts', 'bsz_facts', 'bin_bounds', 'bin_child', 'bin_start', 'bin_next', 'bin_uniq', 'block_uniq', 'bin_two', 'bin_up', 'bin_img', 'bin_ok', 'bin_tree', 'two_child_lists', 'leaves_uniq'], harness='C24.cpp')
