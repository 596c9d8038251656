# component trees
theory('ctree', r'''
let rec ghost function rankf (sx: vec int) (v k: int) : int variant { k } = if k <= 0 then -1 else if sx.elts (k - 1) = v then k - 1 else rankf sx v (k - 1)
(** position of v in sx *)
function rank (sx: vec int) : int -> int = fun v -> rankf sx v sx.len
predicate ranks (sx: vec int) (rk: int -> int) (n: int) = sx.len = n /\ (forall v. 0 <= v < n -> 0 <= rk v < n /\ sx[rk v] = v) /\ (forall i. 0 <= i < n -> 0 <= sx[i] < n /\ rk sx[i] = i)
(** among the vertices of rank at least i, the parent of a vertex has a smaller rank (roots are their own parents) *)
predicate rtree (p: vec int) (rk: int -> int) (n i: int) = n <= p.len /\ forall v. 0 <= v < n -> i <= rk v -> 0 <= p[v] < n /\ i <= rk p[v] /\ (p[v] = v \/ rk p[v] < rk v)
(** f is constant along the edges both extremities of which have a rank at least i *)
predicate from_rank (es: vec edge) (rk: int -> int) (i: int) (f: int -> int) = forall e. 0 <= e < es.len -> rk es[e].edge_source >= i -> rk es[e].edge_target >= i -> joins es f e
predicate ordered (p: vec int) (rk: int -> int) (s t: int) = (rk s <= rk t -> anc p s t) /\ (rk t <= rk s -> anc p t s)
(** an edge links a vertex and one of its ancestors *)
predicate edges_nested (es: vec edge) (rk: int -> int) (p: vec int) (i: int) = forall e. 0 <= e < es.len -> rk es[e].edge_source >= i -> rk es[e].edge_target >= i -> ordered p rk es[e].edge_source es[e].edge_target
(** a vertex is linked to its parent by vertices of rank at least the one of the parent *)
predicate up_linked (es: vec edge) (rk: int -> int) (p: vec int) (v: int) = forall f. from_rank es rk (rk p[v]) f -> f v = f p[v]
predicate ups_linked (es: vec edge) (rk: int -> int) (p: vec int) (n i: int) = forall v. 0 <= v < n -> i <= rk v -> up_linked es rk p v
predicate pre_tree (es: vec edge) (rk: int -> int) (p: vec int) (n: int) = rtree p rk n 0 /\ edges_nested es rk p 0 /\ ups_linked es rk p n 0
(** union-find classes: connected by vertices of rank at least i; the other vertices are alone *)
predicate cls_linked (es: vec edge) (rk cls: int -> int) (n i: int) = forall f. from_rank es rk i f -> forall a. 0 <= a < n -> rk a >= i -> f (cls a) = f a
predicate cls_ranks (rk cls: int -> int) (n i: int) = forall a. 0 <= a < n -> (rk a < i -> cls a = a) /\ (rk a >= i -> 0 <= cls a < n /\ rk (cls a) >= i)
(** the root of a vertex is the representing vertex of its class *)
predicate reps_ok (p rep: vec int) (rk cls: int -> int) (n i: int) = n <= rep.len /\ forall a. 0 <= a < n -> rk a >= i -> let r = rep[cls a] in 0 <= r < n /\ rk r >= i /\ p[r] = r /\ cls r = cls a /\ anc p r a
predicate marked (processed: vec bool) (rk: int -> int) (n i: int) = n <= processed.len /\ forall a. 0 <= a < n -> (processed[a] = True <-> rk a >= i)
(** canonical vertices *)
predicate top (w: vec real) (q: vec int) (c: int) = q[c] = c \/ w[q[c]] <> w[c]
function can (w: vec real) (q: vec int) (v: int) : int = if w[v] <> w[q[v]] then v else q[v]
predicate canon_step (p q: vec int) (w: vec real) (v: int) = (if p[v] = v then q[v] = v else q[v] = (if w[q[p[v]]] = w[p[v]] then q[p[v]] else p[v]))
predicate canonized (p q: vec int) (w: vec real) (n: int) = q.len = n /\ forall v. 0 <= v < n -> canon_step p q w v
predicate canonical (q: vec int) (w: vec real) (n: int) = forall v. 0 <= v < n -> top w q q[v]
(** equal weights are consecutive in the order *)
predicate level_sorted (w: vec real) (rk: int -> int) (n: int) = forall a b c. 0 <= a < n -> 0 <= b < n -> 0 <= c < n -> rk a <= rk b <= rk c -> w[a] = w[c] -> w[b] = w[a]
predicate one_root (q: vec int) (n: int) = forall a b. 0 <= a < n -> 0 <= b < n -> q[a] = a -> q[b] = b -> a = b
(** np, al: a leaf per vertex and an inner node per canonical vertex (own) *)
predicate expanded (q: vec int) (w: vec real) (np: vec int) (al: vec real) (n: int) (own: int -> int) = n < np.len /\ al.len = np.len /\
  (forall v. 0 <= v < n -> n <= np[v] < np.len /\ own np[v] = can w q v /\ al[v] = w[v]) /\
  (forall x. n <= x < np.len -> 0 <= own x < n /\ can w q (own x) = own x /\ np[own x] = x /\ al[x] = w[own x]) /\
  (forall x. n <= x < np.len - 1 -> w[own x] <> w[q[own x]] /\ x < np[x] < np.len /\ np[x] = np[q[own x]]) /\ np[np.len - 1] = np.len - 1 /\ q[own (np.len - 1)] = own (np.len - 1)
predicate is_expanded (q: vec int) (w: vec real) (np: vec int) (al: vec real) (n: int) = exists own. expanded q w np al n own
(** a and b are linked by a path of vertices of level at least lam (labellings constant along the edges joining two of them do not separate a and b) *)
predicate above (es: vec edge) (k: int -> real) (lam: real) (a b: int) = k a >=. lam /\ k b >=. lam /\ forall f: int -> int. (forall e. 0 <= e < es.len -> k es[e].edge_source >=. lam -> k es[e].edge_target >=. lam -> joins es f e) -> f a = f b
(** a and b belong to a same inner node of level at least lam *)
predicate same_node (p: vec int) (h: int -> real) (n: int) (lam: real) (a b: int) = exists x. n <= x < p.len /\ h x >=. lam /\ anc p x a /\ anc p x b
predicate level_components (es: vec edge) (k: int -> real) (p: vec int) (h: int -> real) (n: int) = forall lam a b. 0 <= a < n -> 0 <= b < n -> (same_node p h n lam a b <-> above es k lam a b)
predicate own_leaf (p: vec int) (h: int -> real) (n x: int) = exists l. 0 <= l < n /\ p[l] = x /\ h l = h x
predicate comp_tree (es: vec edge) (k: int -> real) (p: vec int) (h: int -> real) (n: int) = parents_ok p n /\ (forall v. 0 <= v < n -> h v = k v) /\ (forall v. 0 <= v < p.len -> h p[v] <=. h v) /\ (forall x. n <= x < p.len - 1 -> h p[x] <. h x) /\
  (forall x. n <= x < p.len -> own_leaf p h n x) /\ level_components es k p h n
(** order of the vertices by levels *)
predicate by_level (k: int -> real) (rk: int -> int) (n: int) = forall a b. 0 <= a < n -> 0 <= b < n -> rk a <= rk b -> k a <=. k b
predicate same_levels (k: int -> real) (w: vec real) (n: int) = forall a b. 0 <= a < n -> 0 <= b < n -> (k a = k b <-> w[a] = w[b])
predicate asc (w: vec real) (sx: vec int) = forall i j. 0 <= i <= j < sx.len -> w[sx[i]] <=. w[sx[j]]
predicate desc (w: vec real) (sx: vec int) = forall i j. 0 <= i <= j < sx.len -> w[sx[j]] <=. w[sx[i]]
''', deps=['qfz'])
lemma('rankf_ok', '(sx: vec int) (v k: int)', ['0 <= k <= sx.len'], ['-1 <= rankf sx v k < k', 'rankf sx v k >= 0 -> sx[rankf sx v k] = v', 'rankf sx v k = -1 -> forall i. 0 <= i < k -> sx[i] <> v'], body='if k > 0 && sx.elts (k - 1) <> v then rankf_ok sx v (k - 1)', rec=True, variant='k', use=['ctree'])
lemma('rank_ok', '(sx: vec int)', ['is_perm sx sx.len'], ['ranks sx (rank sx) sx.len'], body='let lemma r (v: int) : unit requires { 0 <= v < sx.len } ensures { 0 <= rank sx v < sx.len /\\ sx[rank sx v] = v } = rankf_ok sx v sx.len; assert { occurs sx v } in assert { forall i. 0 <= i < sx.len -> let j = rank sx sx[i] in sx[j] = sx[i] && (j < i \\/ i < j -> false) && j = i }', use=['ctree'], lemmas=['rankf_ok'])
RV = '(p: vec int) (rk: int -> int) (n i v: int)'; RVR = ['rtree p rk n i', '0 <= v < n', 'i <= rk v']; RVX = dict(rec=True, variant='rk v - i', use=['ctree'])
lemma('ranc_rk', RV, RVR, ['forall a. anc p a v -> 0 <= a < n /\\ i <= rk a <= rk v /\\ (a = v \\/ rk a < rk v)'], body='if p.elts v <> v then ranc_rk p rk n i (p.elts v)', **RVX)
lemma('ranc_trans', RV, RVR, ['forall a b. anc p b v -> anc p a b -> anc p a v'], body='if p.elts v <> v then ranc_trans p rk n i (p.elts v)', **RVX)
lemma('ranc_linear', RV, RVR, ['forall a b. anc p b v -> anc p a v -> anc p a b \\/ anc p b a'], body='if p.elts v <> v then ranc_linear p rk n i (p.elts v)', **RVX)
lemma('ranc_ext', '(p p2: vec int) (rk: int -> int) (n i v: int)', RVR + ['forall u. 0 <= u < n -> i <= rk u -> p[u] <> u -> p2[u] = p[u]'], ['forall a. anc p a v -> anc p2 a v'], body='if p.elts v <> v then ranc_ext p p2 rk n i (p.elts v)', **RVX)
lemma('ranc_exts', '(p p2: vec int) (rk: int -> int) (n i: int)', ['rtree p rk n i', 'forall u. 0 <= u < n -> i <= rk u -> p[u] <> u -> p2[u] = p[u]'], ['forall v a. 0 <= v < n -> i <= rk v -> anc p a v -> anc p2 a v'],
      body='let lemma t (v: int) : unit requires { 0 <= v < n /\\ i <= rk v } ensures { forall a. anc p a v -> anc p2 a v } = ranc_ext p p2 rk n i v in ()', use=['ctree'], lemmas=['ranc_ext'])
lemma('ranc_transs', '(p: vec int) (rk: int -> int) (n i: int)', ['rtree p rk n i'], ['forall v a b. 0 <= v < n -> i <= rk v -> anc p b v -> anc p a b -> anc p a v'],
      body='let lemma t (v: int) : unit requires { 0 <= v < n /\\ i <= rk v } ensures { forall a b. anc p b v -> anc p a b -> anc p a v } = ranc_trans p rk n i v in ()', use=['ctree'], lemmas=['ranc_trans'])
# one vertex is added
lemma('ct_start', '(es: vec edge) (p p2 rep rep2: vec int) (rk cls: int -> int) (n i c: int)', ['live_edges es n', 'rtree p rk n (i + 1)', 'edges_nested es rk p (i + 1)', 'ups_linked es rk p n (i + 1)', 'reps_ok p rep rk cls n (i + 1)', 'cls_ranks rk cls n (i + 1)', 'cls_linked es rk cls n (i + 1)', '0 <= c < n', 'rk c = i', 'forall v. 0 <= v < n -> rk v = i -> v = c', 'p2.len = p.len', 'forall v. 0 <= v < n -> v <> c -> p2[v] = p[v]', 'p2[c] = c', 'rep2.len = rep.len', 'forall v. 0 <= v < n -> v <> c -> rep2[v] = rep[v]', 'rep2[c] = c'],
      ['rtree p2 rk n i', 'edges_nested es rk p2 (i + 1)', 'ups_linked es rk p2 n i', 'reps_ok p2 rep2 rk cls n i', 'cls_ranks rk cls n i', 'cls_linked es rk cls n i'],
      body='ranc_exts p p2 rk n (i + 1); assert { forall v. 0 <= v < n -> rk v >= i + 1 -> cls v <> c }; assert { forall f. from_rank es rk i f -> from_rank es rk (i + 1) f }', use=['ctree'], lemmas=['ranc_exts'])
# the class of t is attached to c
lemma('ct_join', '(es: vec edge) (p p2 rep rep2: vec int) (rk cls: int -> int) (n i c t r e: int)', ['live_edges es n', 'rtree p rk n i', 'edges_nested es rk p (i + 1)', 'ups_linked es rk p n i', 'reps_ok p rep rk cls n i', 'cls_ranks rk cls n i', 'cls_linked es rk cls n i', '0 <= c < n', 'rk c = i', 'rep[cls c] = c', 'p[c] = c',
      '0 <= t < n', 'rk t >= i', 'cls t <> cls c', 'r = cls t \\/ r = cls c', '0 <= e < es.len', '(es[e].edge_source = c /\\ es[e].edge_target = t) \\/ (es[e].edge_source = t /\\ es[e].edge_target = c)',
      'forall v. 0 <= v < n -> rk v = i -> v = c', 'p2.len = p.len', 'forall v. 0 <= v < n -> v <> rep[cls t] -> p2[v] = p[v]', 'p2[rep[cls t]] = c', 'rep2.len = rep.len', 'forall v. 0 <= v < n -> v <> r -> rep2[v] = rep[v]', 'rep2[r] = c'],
      ['rtree p2 rk n i', 'edges_nested es rk p2 (i + 1)', 'ups_linked es rk p2 n i', 'let c2 = uf_merge cls (cls t) (cls c) r in reps_ok p2 rep2 rk c2 n i /\\ cls_ranks rk c2 n i /\\ cls_linked es rk c2 n i /\\ c2 c = r /\\ c2 t = r', 'anc p2 c t', 'p2[c] = c', 'forall v a. 0 <= v < n -> i <= rk v -> anc p a v -> anc p2 a v'],
      body='let ghost q = rep.elts (cls t) in assert { q <> c }; ranc_exts p p2 rk n i; assert { rtree p2 rk n i }; ranc_transs p2 rk n i; assert { anc p2 c c }; assert { anc p2 c q }; assert { forall v. 0 <= v < n -> rk v >= i -> cls v = cls t -> anc p2 c v }; '
           'assert { forall f. from_rank es rk i f -> f c = f t && f q = f (cls q) && f t = f (cls t) && f q = f c }; assert { up_linked es rk p2 q }; assert { forall v. 0 <= v < n -> i <= rk v -> v <> q -> up_linked es rk p v && up_linked es rk p2 v }; '
           'let ghost c2 = pure { uf_merge cls (cls t) (cls c) r } in assert { forall a. 0 <= a < n -> rk a >= i -> c2 a = r -> cls a = cls t \\/ cls a = cls c }; assert { forall a. 0 <= a < n -> rk a >= i -> c2 a <> r -> c2 a = cls a /\\ rep2[c2 a] = rep[cls a] /\\ rep[cls a] <> q }; assert { reps_ok p2 rep2 rk c2 n i }; assert { cls_ranks rk c2 n i }; assert { forall f. from_rank es rk i f -> f (cls t) = f (cls c) && f r = f (cls c) && forall a. 0 <= a < n -> rk a >= i -> f (c2 a) = f (cls a) && f (c2 a) = f a }; assert { cls_linked es rk c2 n i }', use=['ctree'], lemmas=['ranc_exts', 'ranc_transs'])
N = 'graph.ug_num_vertices'; ES = 'graph.ug_edges'; SX = 'sorted_vertex_indices'; RK = 'rank sorted_vertex_indices'
CT = 'hg::component_tree_internal::'
fn(CT + 'pre_tree_construction', 'ct_pre', use=['ctree'], lemmas=['rank_ok', 'ct_start', 'ct_join'], requires=['ug_ok graph', 'live_edges %s %s' % (ES, N), 'is_perm %s %s' % (SX, N), '1 <= ' + N],
   ensures=[('one parent per vertex', 'result.len = ' + N), ('vertices and their parents: nested edges, connected', 'pre_tree %s (%s) result %s' % (ES, RK, N))],
   at={'entry': ['rank_ok ' + SX, 'let ghost rk = pure { %s } in' % RK, 'let ghost ref cls = pure { fun (k: int) -> k } in', 'let ghost ref hh = pure { fun (k: int) -> 0 } in', 'let ghost pos = any int -> int -> int ensures { adj_ok graph.ug_num_vertices graph.ug_edges graph.ug_out_edges result } in'],
       'loop1.begin': ['let ghost p0 = parent in', 'let ghost rep0 = representing in', 'let ghost i0 = i in'],
       'loop2.pre': ['ct_start %s p0 parent rep0 representing rk cls %s i0 current_vertex' % (ES, N)],
       'loop2.begin': ['let ghost cls1 = cls in', 'let ghost p1 = parent in', 'let ghost rep1 = representing in'],
       'call:uf_link': ['let ghost h2 = any int -> int ensures { uf_inv uf (uf_merge cls1 neighbor_component (cls1 current_vertex) r_uf_link) result } in', 'hh <- h2'],
       'after:representing:2': ['ct_join %s p1 parent rep1 representing rk cls1 %s i0 current_vertex n current_vertex_reprez ((graph.ug_out_edges.elts current_vertex).elts n_it); cls <- pure { uf_merge cls1 neighbor_component (cls1 current_vertex) current_vertex_reprez }' % (ES, N)],
       'loop2.post': ['assert { forall e. 0 <= e < ES.len -> incident ES[e] current_vertex -> let k = pos e current_vertex in 0 <= k < graph.ug_out_edges[current_vertex].len && (graph.ug_out_edges[current_vertex])[k] = e }; '
                      'assert { forall e. 0 <= e < ES.len -> let s = ES[e].edge_source in let t = ES[e].edge_target in (s = current_vertex -> rk t >= i -> anc parent current_vertex t) && (t = current_vertex -> rk s >= i -> anc parent current_vertex s) }; '
                      'assert { forall v. 0 <= v < NN -> rk v = i -> v = current_vertex }; assert { forall e. 0 <= e < ES.len -> rk ES[e].edge_source >= i -> rk ES[e].edge_target >= i -> ordered parent rk ES[e].edge_source ES[e].edge_target }; assert { edges_nested ES rk parent i }'.replace('ES', ES).replace('NN', N)]},
   loops={1: dict(inv=['-1 <= i < ' + N, 'rtree parent rk %s (i + 1)' % N, 'edges_nested %s rk parent (i + 1)' % ES, 'ups_linked %s rk parent %s (i + 1)' % (ES, N), 'uf_inv uf cls hh', 'uf.uf_parent.len = ' + N, 'reps_ok parent representing rk cls %s (i + 1)' % N, 'cls_ranks rk cls %s (i + 1)' % N, 'cls_linked %s rk cls %s (i + 1)' % (ES, N), 'marked processed rk %s (i + 1)' % N]),
          2: dict(inv=['0 <= n_it <= n_end', 'rtree parent rk %s i' % N, 'edges_nested %s rk parent (i + 1)' % ES, 'ups_linked %s rk parent %s i' % (ES, N), 'uf_inv uf cls hh', 'uf.uf_parent.len = ' + N, 'reps_ok parent representing rk cls %s i' % N, 'cls_ranks rk cls %s i' % N, 'cls_linked %s rk cls %s i' % (ES, N),
                       'current_vertex_reprez = cls current_vertex', 'representing[cls current_vertex] = current_vertex', 'parent[current_vertex] = current_vertex',
                       'let l = graph.ug_out_edges[current_vertex] in forall k. 0 <= k < n_it -> let t = (if current_vertex = %s[l[k]].edge_source then %s[l[k]].edge_target else %s[l[k]].edge_source) in rk t >= i -> anc parent current_vertex t' % (ES, ES, ES)])})

# canonization
fn(CT + 'canonize_tree', 'ct_canon', use=['ctree'], lemmas=['rank_ok'], requires=['is_perm %s parents.len' % SX, 'vertex_weights.len = parents.len', 'rtree parents (%s) parents.len 0' % RK],
   ensures=[('every vertex is attached to the canonical vertex of the level component of its parent', 'canonized (old parents) parents vertex_weights (old parents).len')],
   at={'entry': ['rank_ok ' + SX, 'let ghost rk = pure { %s } in' % RK, 'let ghost p0 = parents in']},
   loops={1: dict(inv=['0 <= e_it <= %s.len' % SX, 'forall v. 0 <= v < p0.len -> e_it <= rk v -> parents[v] = p0[v]', 'forall v. 0 <= v < p0.len -> rk v < e_it -> canon_step p0 parents vertex_weights v', 'forall v. 0 <= v < p0.len -> 0 <= parents[v] < p0.len'])})
CQ = '(p q: vec int) (w: vec real) (rk: int -> int) (n: int)'; CQR = ['rtree p rk n 0', 'ranks sx rk n', 'canonized p q w n']
lemma('canon_fact', '(p q: vec int) (w: vec real) (rk: int -> int) (n v: int)', ['rtree p rk n 0', 'canonized p q w n', '0 <= v < n', 'forall u. 0 <= u < n -> 0 <= rk u'],
      ['0 <= q[v] < n', 'rk q[v] <= rk p[v]', 'w[q[v]] = w[p[v]]', 'top w q q[v]', 'p[v] = v -> q[v] = v'], body='assert { canon_step p q w v }; if p.elts v <> v then canon_fact p q w rk n (p.elts v)', rec=True, variant='rk v', use=['ctree'])
lemma('canon_facts', '(p q: vec int) (w: vec real) (rk: int -> int) (n: int)', ['rtree p rk n 0', 'canonized p q w n', 'forall u. 0 <= u < n -> 0 <= rk u'],
      ['rtree q rk n 0', 'canonical q w n', 'forall v. 0 <= v < n -> w[q[v]] = w[p[v]] /\\ (q[v] = v <-> p[v] = v)'],
      body='let lemma t (v: int) : unit requires { 0 <= v < n } ensures { 0 <= q[v] < n /\\ rk q[v] <= rk p[v] /\\ w[q[v]] = w[p[v]] /\\ top w q q[v] /\\ (p[v] = v -> q[v] = v) } = canon_fact p q w rk n v in ()', use=['ctree'], lemmas=['canon_fact'])
# a canonical vertex is above a vertex exactly when it is above its canonical vertex
lemma('canon_anc', '(p q: vec int) (w: vec real) (rk: int -> int) (n c a: int)', ['rtree p rk n 0', 'rtree q rk n 0', 'canonized p q w n', 'canonical q w n', 'forall u. 0 <= u < n -> 0 <= rk u', 'forall v. 0 <= v < n -> w[q[v]] = w[p[v]] /\\ (q[v] = v <-> p[v] = v)', '0 <= c < n', 'can w q c = c', '0 <= a < n'],
      ['anc p c a <-> anc q c (can w q a)'], body='assert { canon_step p q w a }; if p.elts a <> a then begin canon_anc p q w rk n c (p.elts a); assert { q[a] = can w q p[a] }; assert { c <> a -> (anc p c a <-> anc p c p[a]) } end', rec=True, variant='rk a', use=['ctree'])

# one inner node per canonical vertex
fn(CT + 'expand_canonized_parent_relation', 'ct_expand', use=['ctree'], lemmas=['rank_ok', 'can_fix'], requires=['1 <= parents.len', 'is_perm %s parents.len' % SX, 'vertex_weights.len = parents.len', 'rtree parents (%s) parents.len 0' % RK, 'canonical parents vertex_weights parents.len', 'one_root parents parents.len', 'level_sorted vertex_weights (%s) parents.len' % RK],
   ensures=[('a leaf per vertex and an inner node per canonical vertex', 'is_expanded parents vertex_weights result.fst result.snd parents.len')],
   at={'entry': ['rank_ok ' + SX, 'let ghost rk = pure { %s } in' % RK, 'let ghost n = parents.len in', 'can_fix parents vertex_weights n', 'let ghost ref own = pure { fun (x: int) -> x } in', 'let ghost ref mem = pure { fun (x: int) -> x } in', 'let ghost ref m1 = parents in'],
       'after:nbe': ['own <- pure { Map.set own (nbe - 1) par }; mem <- pure { Map.set mem (nbe - 1) i }'],
       'loop1.begin': ['let ghost v0 = sorted_vertex_indices.elts j in assert { rk v0 = j \\/ false }; let ghost c0 = pure { can vertex_weights parents v0 } in assert { 0 <= c0 < n }'] , 'loop1.post': ['m1 <- new_parents', 'assert { forall x. n <= x < nbe -> let c = own x in parents[c] <> c -> x < m1[parents[c]] }'],
       'loop2.post': ['assert { n <= m1[0] < nbe }', 'assert { let c = own (nbe - 1) in parents[c] = c }', 'assert { forall x. n <= x < nbe - 1 -> parents[own x] <> own x && vertex_weights[own x] <> vertex_weights[parents[own x]] }'],
       'return': ['assert { forall v. 0 <= v < n -> new_parents[v] = m1[v] && n <= m1[v] < nbe && own m1[v] = can vertex_weights parents v }', 'assert { forall x. n <= x < nbe - 1 -> new_parents[x] = m1[parents[own x]] && x < new_parents[x] < nbe }', 'assert { expanded parents vertex_weights new_parents altitudes n own }']},
   loops={1: dict(inv=['-1 <= j < n', 'n <= nbe', 'new_parents.len = nbe', 'altitudes.len = nbe', 'forall v. 0 <= v < n -> altitudes[v] = vertex_weights[v]',
                       'forall x. n <= x < nbe -> 0 <= own x < n /\\ can vertex_weights parents (own x) = own x /\\ new_parents[own x] = x /\\ altitudes[x] = vertex_weights[own x] /\\ 0 <= mem x < n /\\ can vertex_weights parents (mem x) = own x /\\ rk (mem x) > j',
                       'forall v. 0 <= v < n -> new_parents[v] = -1 \\/ (n <= new_parents[v] < nbe /\\ own new_parents[v] = can vertex_weights parents v)', 'forall v. 0 <= v < n -> rk v > j -> new_parents[v] <> -1 /\\ rk v <= rk (mem new_parents[v])',
                       'forall x y. n <= x < y < nbe -> rk (mem x) > rk (mem y)']),
          2: dict(inv=['-1 <= j_1 < n', 'forall v. 0 <= v < n -> new_parents[v] = m1[v]', 'forall x. n <= x < nbe -> parents[own x] <> own x -> rk (own x) > j_1 -> new_parents[x] = m1[parents[own x]]'])})
lemma('can_fix', '(q: vec int) (w: vec real) (n: int)', ['canonical q w n', 'forall v. 0 <= v < n -> 0 <= q[v] < n'], ['forall v. 0 <= v < n -> 0 <= can w q v < n /\\ can w q (can w q v) = can w q v /\\ w[can w q v] = w[v]', 'forall c. 0 <= c < n -> (can w q c = c <-> top w q c)'],
      body='assert { forall v. 0 <= v < n -> top w q q[v] }', use=['ctree'])

EX = ['rtree q rk n 0', 'canonical q w n', 'forall u. 0 <= u < n -> 0 <= rk u', 'expanded q w np al n own']
lemma('exp_ok', '(q: vec int) (w: vec real) (np: vec int) (al: vec real) (n: int) (own rk: int -> int)', ['1 <= n'] + EX, ['parents_ok np n'], body='assert { forall v. 0 <= v < n -> np[v] >= n }; assert { forall x. n <= x < np.len -> let c = own x in 0 <= c < np.len - 1 /\\ np[c] = x }; assert { forall x. n <= x < np.len - 1 -> n <= np[x] }; assert { parents_up np }; let lemma hc (x: int) : unit requires { n <= x < np.len } ensures { has_child np x } = let c = own x in assert { 0 <= c < np.len - 1 /\\ np[c] = x } in  assert { forall u. 0 <= u < np.len - 1 -> n <= np[u] }', use=['ctree'])
lemma('exp_anc', '(q: vec int) (w: vec real) (np: vec int) (al: vec real) (n: int) (own rk: int -> int) (c d: int)', EX + ['parents_ok np n', '0 <= c < n', 'can w q c = c', '0 <= d < n', 'can w q d = d'], ['anc q c d <-> anc np np[c] np[d]'],
      body='can_fix q w n; let ghost x = np.elts d in assert { own x = d }; anc_ge np x; if q.elts d <> d then begin let ghost e = q.elts d in assert { top w q q[d] }; exp_anc q w np al n own rk c e; assert { x < np.len - 1 }; assert { np[x] = np[e] }; assert { c = d <-> np[c] = np[d] }; assert { anc q c d <-> c = d \\/ anc q c e } end else begin assert { x = np.len - 1 } end', rec=True, variant='rk d', use=['ctree'], lemmas=['can_fix', 'anc_ge'])

TP = '(es: vec edge) (rk: int -> int) (p: vec int) (n: int)'; UP = 'forall x y. 0 <= x < n -> 0 <= y < n -> u x -> rk x <= rk y -> u y'; RN = 'forall v. 0 <= v < n -> 0 <= rk v'
lemma('ct_topmost', '(p: vec int) (rk: int -> int) (n: int) (u: int -> bool) (a: int)', ['rtree p rk n 0', RN, '0 <= a < n', 'u a'], ['0 <= v < n', 'anc p v a', 'u v', 'p[v] = v \\/ not (u p[v])'],
      body='if p.elts a = a || not (pure { u p[a] }) then a else ct_topmost p rk n u (p.elts a)', ret='(v: int)', rec=True, variant='rk a', use=['ctree'])
lemma('ct_cut', TP + ' (u: int -> bool) (v s t e: int)', ['pre_tree es rk p n', RN, UP, '0 <= v < n', 'u v', 'p[v] = v \\/ not (u p[v])', '0 <= s < n', '0 <= t < n', 'anc p v s', 'u s', 'u t', '0 <= e < es.len', '(es[e].edge_source = s /\\ es[e].edge_target = t) \\/ (es[e].edge_source = t /\\ es[e].edge_target = s)'], ['anc p v t'],
      body='assert { ordered p rk es[e].edge_source es[e].edge_target }; ranc_trans p rk n 0 t; ranc_linear p rk n 0 s; ranc_rk p rk n 0 v; ranc_rk p rk n 0 (p.elts v); if pure { rk t < rk s } then begin assert { anc p t s }; assert { anc p v t \\/ anc p t v }; assert { anc p t v -> t = v \\/ (p[v] <> v /\\ anc p t p[v]) } end', use=['ctree'], lemmas=['ranc_trans', 'ranc_linear', 'ranc_rk'])
lemma('ct_cutf', TP + ' (u: int -> bool) (v b: int)', ['pre_tree es rk p n', RN, UP, 'live_edges es n', '0 <= v < n', 'u v', 'p[v] = v \\/ not (u p[v])', '0 <= b < n', 'forall f: int -> int. (forall e. 0 <= e < es.len -> u es[e].edge_source -> u es[e].edge_target -> joins es f e) -> f v = f b'], ['anc p v b'],
      body='let ghost f = pure { fun x -> if anc p v x then 1 else 0 } in let lemma t (e: int) : unit requires { 0 <= e < es.len /\\ u es[e].edge_source /\\ u es[e].edge_target } ensures { joins es f e } = let s = (es.elts e).edge_source in let t = (es.elts e).edge_target in if pure { anc p v s } then ct_cut es rk p n u v s t e else if pure { anc p v t } then ct_cut es rk p n u v t s e in assert { f v = f b }', use=['ctree'], lemmas=['ct_cut'])
lemma('ct_up', TP + ' (c a: int)', ['pre_tree es rk p n', RN, '0 <= a < n', 'anc p c a'], ['forall f. from_rank es rk (rk c) f -> f a = f c'],
      body='ranc_rk p rk n 0 a; if a <> c then begin ranc_rk p rk n 0 (p.elts a); ct_up es rk p n c (p.elts a); assert { up_linked es rk p a }; assert { forall f. from_rank es rk (rk c) f -> from_rank es rk (rk p[a]) f } end', rec=True, variant='rk a', use=['ctree'], lemmas=['ranc_rk'])
lemma('ct_root', TP, ['pre_tree es rk p n', RN, 'live_edges es n', 'connected es n'], ['one_root p n'],
      body='let lemma t (r b: int) : unit requires { 0 <= r < n /\\ 0 <= b < n /\\ p[r] = r /\\ p[b] = b } ensures { r = b } = assert { linked es r b }; ct_cutf es rk p n (pure { fun (_: int) -> True }) r b in ()', use=['ctree'], lemmas=['ct_cutf'])
FP = '(es: vec edge) (k: int -> real) (w: vec real) (rk: int -> int) (p q np: vec int) (al: vec real) (own: int -> int) (h: int -> real) (n: int)'
FR = ['1 <= n', 'pre_tree es rk p n', RN, 'canonized p q w n', 'expanded q w np al n own', 'live_edges es n', 'by_level k rk n', 'same_levels k w n', 'forall v. 0 <= v < n -> h v = k v', 'forall x. n <= x < np.len -> h x = k (own x)']
FA = 'es k w rk p q np al own h n'
lemma('ct_node', FP + ' (x a: int)', FR + ['n <= x < np.len', '0 <= a < n'], ['anc np x a <-> anc p (own x) a'],
      body='canon_facts p q w rk n; can_fix q w n; exp_ok q w np al n own rk; let ghost c = own x in canon_anc p q w rk n c a; exp_anc q w np al n own rk c (pure { can w q a }); assert { np[can w q a] = np[a] }; assert { anc np x a <-> anc np x np[a] }', use=['ctree'], lemmas=['canon_facts', 'can_fix', 'exp_ok', 'canon_anc', 'exp_anc'])
lemma('ct_sound', FP + ' (lam: real) (x a b: int)', FR + ['n <= x < np.len', 'h x >=. lam', '0 <= a < n', '0 <= b < n', 'anc np x a', 'anc np x b'], ['above es k lam a b'],
      body='ct_node {0} x a; ct_node {0} x b; let ghost c = own x in ranc_rk p rk n 0 a; ranc_rk p rk n 0 b; ct_up es rk p n c a; ct_up es rk p n c b; assert {{ k c <=. k a /\\ k c <=. k b }}; assert {{ forall v. 0 <= v < n -> rk v >= rk c -> k v >=. lam }}; '
           'assert {{ forall f: int -> int. (forall e. 0 <= e < es.len -> k es[e].edge_source >=. lam -> k es[e].edge_target >=. lam -> joins es f e) -> from_rank es rk (rk c) f }}'.format(FA), use=['ctree'], lemmas=['ct_node', 'ct_up', 'ranc_rk'])
lemma('ct_complete', FP + ' (lam: real) (a b: int)', FR + ['0 <= a < n', '0 <= b < n', 'above es k lam a b'], ['same_node np h n lam a b'],
      body='canon_facts p q w rk n; can_fix q w n; let ghost u = pure {{ fun x -> k x >=. lam }} in let ghost v = ct_topmost p rk n u a in assert {{ forall f: int -> int. (forall e. 0 <= e < es.len -> u es[e].edge_source -> u es[e].edge_target -> joins es f e) -> f a = f b }}; '
           'ct_topf es rk p n u v a; ct_cutf es rk p n u v b; assert {{ p[v] <> v -> w[p[v]] <> w[v] }}; assert {{ top w q v }}; let ghost x = np.elts v in assert {{ own x = v }}; ct_node {0} x a; ct_node {0} x b'.format(FA), use=['ctree'], lemmas=['canon_facts', 'can_fix', 'ct_topmost', 'ct_cutf', 'ct_node', 'ct_topf'])
lemma('ct_topf', TP + ' (u: int -> bool) (v a: int)', ['pre_tree es rk p n', RN, UP, 'live_edges es n', '0 <= v < n', 'u v', '0 <= a < n', 'anc p v a'], ['forall f: int -> int. (forall e. 0 <= e < es.len -> u es[e].edge_source -> u es[e].edge_target -> joins es f e) -> f v = f a'],
      body='ct_up es rk p n v a; assert { forall f: int -> int. (forall e. 0 <= e < es.len -> u es[e].edge_source -> u es[e].edge_target -> joins es f e) -> from_rank es rk (rk v) f }', use=['ctree'], lemmas=['ct_up'])
lemma('ct_result', FP, FR, ['comp_tree es k np h n'],
      body='canon_facts p q w rk n; can_fix q w n; exp_ok q w np al n own rk; assert {{ forall v. 0 <= v < n -> k (can w q v) = k v }}; assert {{ forall x. n <= x < np.len - 1 -> let c = own x in own np[x] = q[c] /\\ k q[c] <=. k c /\\ k q[c] <> k c }}; assert {{ forall x. n <= x < np.len -> np[own x] = x /\\ h (own x) = h x }}; assert {{ forall v. 0 <= v < np.len -> h np[v] <=. h v }}; '
           'let lemma t1 (lam: real) (x a b: int) : unit requires {{ n <= x < np.len /\\ h x >=. lam /\\ 0 <= a < n /\\ 0 <= b < n /\\ anc np x a /\\ anc np x b }} ensures {{ above es k lam a b }} = ct_sound {0} lam x a b in '
           'let lemma t2 (lam: real) (a b: int) : unit requires {{ 0 <= a < n /\\ 0 <= b < n /\\ above es k lam a b }} ensures {{ same_node np h n lam a b }} = ct_complete {0} lam a b in assert {{ level_components es k np h n }}'.format(FA), use=['ctree'], lemmas=['canon_facts', 'can_fix', 'exp_ok', 'ct_sound', 'ct_complete'])

R = 'result.node_weighted_tree_tree'; AL = 'result.node_weighted_tree_altitudes'; RP = 'res_.node_weighted_tree_tree.tree_parents'; RA = 'res_.node_weighted_tree_altitudes'
def ctree_post(sg, w): return 'comp_tree %s (fun v -> %s%s[v]) %s.tree_parents (fun x -> %s%s[x]) %s' % (ES, sg, w, R, sg, AL, N)
SH = ('a tree whose leaves are the vertices', 'tree_ok {0} /\\ {0}.tree_num_leaves = {1} /\\ {2}.len = {0}.tree_parents.len'.format(R, N, AL))
GR = ['ug_ok graph', 'live_edges %s %s' % (ES, N), 'connected %s %s' % (ES, N), '1 <= ' + N]
fn(CT + 'tree_from_sorted_vertices', 'ct_sorted', use=['ctree', 'tree'], lemmas=['rank_ok', 'canon_facts', 'can_fix', 'ct_root', 'ct_result', 'exp_ok', 'nl_uniq'], requires=GR + ['vertex_weights.len = ' + N, 'is_perm %s %s' % (SX, N), 'asc vertex_weights %s \\/ desc vertex_weights %s' % (SX, SX)],
   ensures=[SH, ('vertices sorted by increasing weights: the max tree', 'asc vertex_weights %s -> %s' % (SX, ctree_post('', 'vertex_weights'))), ('vertices sorted by decreasing weights: the min tree', 'desc vertex_weights %s -> %s' % (SX, ctree_post('-. ', 'vertex_weights')))],
   at={'entry': ['rank_ok ' + SX, 'let ghost rk = pure { %s } in' % RK, 'assert { asc vertex_weights SX -> forall a b. 0 <= a < NN -> 0 <= b < NN -> rk a <= rk b -> vertex_weights[SX[rk a]] <=. vertex_weights[SX[rk b]] && vertex_weights[a] <=. vertex_weights[b] }'.replace('SX', SX).replace('NN', N), 'assert { desc vertex_weights SX -> forall a b. 0 <= a < NN -> 0 <= b < NN -> rk a <= rk b -> vertex_weights[SX[rk b]] <=. vertex_weights[SX[rk a]] && vertex_weights[b] <=. vertex_weights[a] }'.replace('SX', SX).replace('NN', N), 'assert { level_sorted vertex_weights rk %s }' % N, 'let ghost ref p0 = %s in' % SX],
       'call:ct_pre': ['p0 <- r_ct_pre; ct_root %s rk r_ct_pre %s' % (ES, N)], 'call:ct_canon': ['canon_facts p0 parents vertex_weights rk ' + N],
       'call:ct_expand': ['let ghost own0 = any int -> int ensures { expanded parents vertex_weights r_ct_expand.fst r_ct_expand.snd %s result } in exp_ok parents vertex_weights r_ct_expand.fst r_ct_expand.snd %s own0 rk' % (N, N)],
       'return': ['let ghost own = any int -> int ensures {{ expanded parents vertex_weights {0} {1} {2} result }} in nl_uniq {0} {2} res_.node_weighted_tree_tree.tree_num_leaves; let ghost k1 = pure {{ fun (v: int) -> vertex_weights[v] }} in let ghost h1 = pure {{ fun (v: int) -> {1}[v] }} in let ghost k2 = pure {{ fun (v: int) -> -. vertex_weights[v] }} in let ghost h2 = pure {{ fun (v: int) -> -. {1}[v] }} in '
                  'if pure {{ asc vertex_weights {3} }} then begin assert {{ by_level k1 rk {2} }}; assert {{ same_levels k1 vertex_weights {2} }}; ct_result {4} k1 vertex_weights rk p0 parents {0} {1} own h1 {2} end; if pure {{ desc vertex_weights {3} }} then begin assert {{ by_level k2 rk {2} }}; assert {{ same_levels k2 vertex_weights {2} }}; ct_result {4} k2 vertex_weights rk p0 parents {0} {1} own h2 {2} end'.format(RP, RA, N, SX, ES)]})
lemma('nl_uniq', '(p: vec int) (a b: int)', ['parents_ok p a', 'parents_ok p b'], ['a = b'], body='assert { a < b -> has_child p a }; assert { b < a -> has_child p b }', use=['parents'])
for w, sg, od, ss in (('max', '', 'asc', 'stable_arg_sort_d'), ('min', '-. ', 'desc', 'stable_arg_sort_d_greater')):
    fn('hg::component_tree_%s_tree' % w, 'ct_' + w, use=['ctree', 'tree'], requires=GR + ['xvertex_weights.len = ' + N], ensures=[SH, ('%s tree: nodes are the connected components of the level sets' % w, ctree_post(sg, 'xvertex_weights'))],
       at={'call:' + ss: ['assert { %s xvertex_weights r_%s }' % (od, ss)]})
prop('C11', ['ct_max', 'ct_min', 'ct_sorted', 'ct_pre', 'ct_canon', 'ct_expand', 'stable_arg_sort_d', 'stable_arg_sort_d_greater', 'stable_arg_sort_d_less', 'uf_new', 'uf_find', 'uf_link', 'tree_new_a'], lemmas=['linked_path', 'walk_linked', 'ct_result', 'ct_sound', 'ct_complete'], harness='C11.cpp')
