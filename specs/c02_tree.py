TREE = 'hg::tree_internal::tree'
short(TREE, 'tree')
theory('parents', '''
(** p encodes a single rooted, topologically ordered tree, leaves first, with nl leaves *)
predicate parents_up (p: vec int) =
  1 <= p.len /\\ p[p.len - 1] = p.len - 1 /\\ forall v. 0 <= v < p.len - 1 -> v < p[v] < p.len
predicate has_child (p: vec int) (v: int) = exists u. 0 <= u < p.len - 1 /\\ p[u] = v
predicate parents_ok (p: vec int) (nl: int) =
  parents_up p /\\ 1 <= nl <= p.len /\\ (forall u. 0 <= u < p.len - 1 -> nl <= p[u]) /\\
  forall v. nl <= v < p.len -> has_child p v
''')
theory('tree', '''
predicate tree_shape (t: tree) =
  t.tree_num_vertices = t.tree_parents.len /\\ t.tree_root = t.tree_parents.len - 1 /\\ parents_ok t.tree_parents t.tree_num_leaves
(** l lists the children of v in increasing order; pos gives the rank of a node among its siblings *)
predicate lists_children (p: vec int) (pos: int -> int) (v: int) (l: vec int) =
  0 <= l.len /\\
  (forall k. 0 <= k < l.len -> 0 <= l[k] < p.len - 1 /\\ p[l[k]] = v /\\ pos l[k] = k) /\\
  (forall k m. 0 <= k < m < l.len -> l[k] < l[m])
predicate children_ok (p: vec int) (nl: int) (ch: vec (vec int)) (pos: int -> int) =
  ch.len = p.len - nl /\\
  (forall u. 0 <= u < p.len - 1 -> 0 <= pos u < (ch[p[u] - nl]).len /\\ (ch[p[u] - nl])[pos u] = u) /\\
  (forall w. 0 <= w < ch.len -> lists_children p pos (w + nl) ch[w])
predicate tree_ok (t: tree) =
  tree_shape t /\\ t.tree_empty_children.len = 0 /\\ (t.tree_children_computed = False -> t.tree_children.len = 0) /\\
  (t.tree_children_computed = True -> exists pos. children_ok t.tree_parents t.tree_num_leaves t.tree_children pos)
''', recs=[TREE], deps=['parents'])

for w, sig in (('tree_new', r'const xt::xexpression'), ('tree_new_m', r'\(xt::xexpression<xt::xtensor_cont'), ('tree_new_a', r'\(xt::xexpression<xt::xtensor_adap')):
  fn(TREE + '::tree', w, sig=sig, use=['tree'],
   ensures=[('empty array gives the empty tree', 'parents.len = 0 -> result.tree_num_vertices = 0 /\\ result.tree_num_leaves = 0'),
            ('valid array gives that tree', 'parents.len > 0 -> tree_shape result'),
            ('parents, root and category', 'result.tree_parents = parents /\\ result.tree_root = parents.len - 1 /\\ result.tree_category = category'),
            ('tree invariant', 'parents.len > 0 -> tree_ok result')],
   raises='parents.len > 0 /\\ forall nl. not (parents_ok parents nl)',
   at={'loop2.pre': ['assert { forall w. 0 <= w < parents.len -> (num_children[w] > 0 <-> has_child parents w) }', 'assert { not (has_child parents 0) }'], 'loop2.begin': ['assert { num_children[v_1] = 0 <-> not (has_child parents v_1) }', 'assert { num_leaves < v_1 -> has_child parents num_leaves }']},
   loops={1: dict(inv=['0 <= v <= this_root', 'forall u. 0 <= u < v -> u < parents[u] <= this_root', 'forall u. 0 <= u < parents.len -> num_children[u] >= 0',
                       'forall u. 0 <= u < v -> num_children[parents[u]] > 0', 'forall w. 0 <= w < parents.len -> num_children[w] > 0 -> exists u. 0 <= u < v /\\ parents[u] = w']),
          2: dict(inv=['0 <= num_leaves <= v_1 <= this_root + 1', 'forall u. 0 <= u < num_leaves -> num_children[u] = 0', 'forall u. num_leaves <= u < v_1 -> num_children[u] > 0'])})
prop('C02', ['tree_new', 'tree_new_m', 'tree_new_a'], harness='C02.cpp')
