# canonical binary partition tree: Kruskal's forest with a tree of regions
theory('bptf', """
predicate same_es (a b: vec edge) = a.len = b.len /\\ forall e. 0 <= e < a.len -> a[e].edge_source = b[e].edge_source /\\ a[e].edge_target = b[e].edge_target
function mk_es (s t: vec int) : vec edge = { elts = (fun i -> { edge_source = s[i]; edge_target = t[i]; edge_index = i }); len = s.len }
(** edge e goes from region x to region y *)
predicate crosses (es: vec edge) (reg: int -> int -> bool) (x y e: int) = (reg x es[e].edge_source /\\ reg y es[e].edge_target) \\/ (reg x es[e].edge_target /\\ reg y es[e].edge_source)
(** node n + k merges the regions of lc k and rc k, linked by the k-th selected edge *)
predicate merges (es: vec edge) (sx em p: vec int) (n k: int) (at_: int -> int) (reg: int -> int -> bool) (x y: int) =
  0 <= x < n + k /\\ 0 <= y < n + k /\\ x <> y /\\ p[x] = n + k /\\ p[y] = n + k /\\ (forall c. 0 <= c < p.len -> p[c] = n + k -> c = x \\/ c = y \\/ c = n + k) /\\
  (forall a. 0 <= a < n -> (reg (n + k) a <-> reg x a \\/ reg y a)) /\\ reg x es[em[k]].edge_source /\\ reg y es[em[k]].edge_target /\\
  forall j. 0 <= j < at_ k -> not (crosses es reg x y sx[j])
predicate bpt_forest (es: vec edge) (sx em p roots: vec int) (f n: int) (cls at_: int -> int) (reg: int -> int -> bool) (lc rc wl: int -> int) =
  p.len = 2 * n - 1 /\\ roots.len = n /\\ (forall v. n + f <= v < p.len -> p[v] = v) /\\ (forall v. 0 <= v < n + f -> p[v] = v \\/ (v < p[v] < n + f /\\ n <= p[v])) /\\
  (forall r. 0 <= r < n -> cls r = r -> 0 <= roots[r] < n + f /\\ p[roots[r]] = roots[r] /\\ forall a. 0 <= a < n -> (reg roots[r] a <-> cls a = r)) /\\
  (forall v. 0 <= v < n + f -> 0 <= wl v < n /\\ reg v (wl v) /\\ (p[v] = v -> roots[cls (wl v)] = v)) /\\
  (forall v a. 0 <= v < n -> 0 <= a < n -> (reg v a <-> a = v)) /\\
  (forall k. 0 <= k < f -> merges es sx em p n k at_ reg (lc k) (rc k))
""", deps=['kruskal', 'anc'])
lemma('kruskal_joins', '(es: vec edge) (sx em: vec int) (i fnd n: int) (cls at_ cnt: int -> int) (sep: int -> int -> int)', ['kruskal es sx em i fnd n cls at_ cnt sep'], ['forall j. 0 <= j < i -> joins es cls sx[j]'],
      body='assert { forall k. 0 <= k < fnd -> joins es cls em[k] }; assert { forall j. 0 <= j < i -> cnt j < fnd -> at_ (cnt j) = j -> em[cnt j] = sx[j] }', use=['kruskal'])
lemma('bpt_init', '(es: vec edge) (sx em p roots: vec int) (n: int)', ['1 <= n', 'p.len = 2 * n - 1', 'roots.len = n', 'forall v. 0 <= v < p.len -> p[v] = v', 'forall v. 0 <= v < n -> roots[v] = v'],
      ['bpt_forest es sx em p roots 0 n (fun k -> k) (fun k -> k) (fun v a -> v = a) (fun k -> k) (fun k -> k) (fun k -> k)'], use=['bptf'])
lemma('bpt_step', '(es: vec edge) (sx em em2 p p2 roots roots2: vec int) (i f n: int) (cls at_ cnt: int -> int) (sep: int -> int -> int) (reg: int -> int -> bool) (lc rc wl: int -> int) (r: int)',
      ['kruskal es sx em i f n cls at_ cnt sep', 'bpt_forest es sx em p roots f n cls at_ reg lc rc wl', 'i < sx.len', 'f < n - 1', 'live_edges es n', 'in_range es sx',
       'let e = es[sx[i]] in 0 <= e.edge_source < n /\\ 0 <= e.edge_target < n /\\ cls e.edge_source <> cls e.edge_target /\\ (r = cls e.edge_source \\/ r = cls e.edge_target) /\\ '
       '(forall v. 0 <= v < p.len -> p2[v] = (if v = roots[cls e.edge_source] \\/ v = roots[cls e.edge_target] then n + f else p[v]))',
       'forall k. 0 <= k < n -> roots2[k] = (if k = r then n + f else roots[k])', 'p2.len = p.len', 'roots2.len = n', 'em2[f] = sx[i]', 'forall k. 0 <= k < f -> em[k] = em2[k]'],
      ['let e = es[sx[i]] in bpt_forest es sx em2 p2 roots2 (f + 1) n (uf_merge cls (cls e.edge_source) (cls e.edge_target) r) (Map.set at_ f i) reg2 lc2 rc2 wl2'],
      body='let ghost e = es.elts (sx.elts i) in kruskal_joins es sx em i f n cls at_ cnt sep; let ghost c1 = cls e.edge_source in let ghost c2 = cls e.edge_target in let ghost x = roots.elts c1 in let ghost y = roots.elts c2 in '
           'assert { x <> y }; assert { p[x] = x /\\ p[y] = y }; '
           'let ghost reg2 = pure { fun v -> if v = n + f then (fun a -> cls a = c1 || cls a = c2) else reg v } in let ghost lc2 = pure { Map.set lc f x } in let ghost rc2 = pure { Map.set rc f y } in let ghost wl2 = pure { Map.set wl (n + f) (es.elts (sx.elts i)).edge_source } in '
           'let ghost at2 = pure { Map.set at_ f i } in '
           'assert { forall a. 0 <= a < n -> (reg2 x a <-> cls a = c1) /\\ (reg2 y a <-> cls a = c2) }; assert { forall j. 0 <= j < i -> not (crosses es reg2 x y sx[j]) }; assert { merges es sx em2 p2 n f at2 reg2 x y }; assert { forall k. 0 <= k < f -> merges es sx em2 p2 n k at2 reg2 (lc k) (rc k) }; '
           '(reg2, lc2, rc2, wl2)', ret='(reg2: int -> int -> bool, lc2: int -> int, rc2: int -> int, wl2: int -> int)', use=['bptf'], lemmas=['kruskal_joins'])
theory('bpt', """
(** the inner node v has exactly the two children x and y, the region of x contains the source of edge e and the region of y its target *)
predicate binary_node (es: vec edge) (p: vec int) (v e x y: int) = 0 <= x < v /\\ 0 <= y < v /\\ x <> y /\\ p[x] = v /\\ p[y] = v /\\ (forall c. 0 <= c < v -> p[c] = v -> c = x \\/ c = y) /\\
  anc p x es[e].edge_source /\\ anc p y es[e].edge_target
predicate between (es: vec edge) (p: vec int) (x y e: int) = (anc p x es[e].edge_source /\\ anc p y es[e].edge_target) \\/ (anc p x es[e].edge_target /\\ anc p y es[e].edge_source)
predicate node_by_rank (es: vec edge) (sx em p: vec int) (n k r x y: int) = binary_node es p (n + k) em[k] x y /\\ 0 <= r < sx.len /\\ sx[r] = em[k] /\\ forall j. 0 <= j < r -> not (between es p x y sx[j])
predicate some_rank (es: vec edge) (sx em p: vec int) (n k r: int) = exists x y. node_by_rank es sx em p n k r x y
predicate bpt_done (es: vec edge) (sx em p: vec int) (n: int) = exists i cls at_ cnt sep. kruskal es sx em i (n - 1) n cls at_ cnt sep /\\ forall k. 0 <= k < n - 1 -> some_rank es sx em p n k (at_ k)
(** edge em[k] links the two child regions of node n + k, and no edge between them precedes it in Kruskal's order *)
predicate linkage_node (es: vec edge) (w: vec real) (p: vec int) (n k e: int) = exists x y. binary_node es p (n + k) e x y /\\ forall f. 0 <= f < es.len -> between es p x y f -> f = e \\/ before_r w e f
predicate connected (es: vec edge) (n: int) = forall a b. 0 <= a < n -> 0 <= b < n -> linked es a b
""", deps=['bptf'])
lemma('reg_anc', '(es: vec edge) (sx em p roots: vec int) (n: int) (cls at_: int -> int) (reg: int -> int -> bool) (lc rc wl: int -> int) (m: int)', ['bpt_forest es sx em p roots (n - 1) n cls at_ reg lc rc wl', 'parents_ok p n', '0 <= m <= p.len'],
      ['forall v a. 0 <= v < m -> 0 <= a < n -> (reg v a <-> anc p v a)'],
      body='if 0 < m then begin let v = m - 1 in reg_anc es sx em p roots n cls at_ reg lc rc wl v; anc_le_leaf p n p.len; if v >= n then begin anc_children p v p.len; anc_ups p v p.len; assert { merges es sx em p n (v - n) at_ reg (lc (v - n)) (rc (v - n)) }; '
           'assert { forall a. 0 <= a < n -> anc p v a <-> anc p (lc (v - n)) a \\/ anc p (rc (v - n)) a } end end', rec=True, variant='m', use=['bpt'], lemmas=['anc_le_leaf', 'anc_children', 'anc_ups'])
lemma('bpt_tree', '(es: vec edge) (sx em p roots: vec int) (n: int) (cls at_: int -> int) (reg: int -> int -> bool) (lc rc wl: int -> int)', ['1 <= n', 'bpt_forest es sx em p roots (n - 1) n cls at_ reg lc rc wl', 'forall a b. 0 <= a < n -> 0 <= b < n -> cls a = cls b'], ['parents_ok p n'],
      body='let ghost t = p.len - 1 in assert { p[t] = t }; assert { roots[cls (wl t)] = t }; assert { forall v. 0 <= v < t -> p[v] <> v }; assert { forall k. 0 <= k < n - 1 -> merges es sx em p n k at_ reg (lc k) (rc k) }; assert { forall v. n <= v < p.len -> merges es sx em p n (v - n) at_ reg (lc (v - n)) (rc (v - n)) && has_child p v }', use=['bpt'])
lemma('by_linked', '(es: vec edge) (em: vec int) (m: int)', ['forall k. 0 <= k < m -> 0 <= em[k] < es.len'], ['forall a b. linked_by es em m a b -> linked es a b'], body='assert { forall f: int -> int. (forall e. 0 <= e < es.len -> joins es f e) -> forall k. 0 <= k < m -> joins es f em[k] }', use=['linked'])
lemma('bpt_end', '(es: vec edge) (sx em p roots: vec int) (i n: int) (cls at_ cnt: int -> int) (sep: int -> int -> int) (reg: int -> int -> bool) (lc rc wl: int -> int)',
      ['1 <= n', 'kruskal es sx em i (n - 1) n cls at_ cnt sep', 'bpt_forest es sx em p roots (n - 1) n cls at_ reg lc rc wl', 'live_edges es n', 'in_range es sx'], ['parents_ok p n', 'bpt_done es sx em p n', 'connected es n'],
      body='nrep_all cls n; bpt_tree es sx em p roots n cls at_ reg lc rc wl; reg_anc es sx em p roots n cls at_ reg lc rc wl p.len; '
           'assert { forall k. 0 <= k < n - 1 -> merges es sx em p n k at_ reg (lc k) (rc k) && node_by_rank es sx em p n k (at_ k) (lc k) (rc k) && some_rank es sx em p n k (at_ k) }; gen_linked es em (n - 1) cls n; '
           'assert { forall k. 0 <= k < n - 1 -> 0 <= em[k] < es.len }; '
           'by_linked es em (n - 1); assert { forall a b. 0 <= a < n -> 0 <= b < n -> linked_by es em (n - 1) a b }', use=['bpt'], lemmas=['by_linked', 'nrep_all', 'bpt_tree', 'reg_anc', 'gen_linked'])
lemma('nrep_some', '(c: int -> int) (n: int)', ['nrep c n >= 1'], ['exists a. 0 <= a < n /\\ c a = a'], body='if 0 < n then begin if pure { c (n - 1) <> n - 1 } then nrep_some c (n - 1) end', rec=True, variant='if n < 0 then 0 else n', use=['linked'])
lemma('nrep_two', '(c: int -> int) (n: int)', ['nrep c n >= 2'], ['exists a b. 0 <= a < b < n /\\ c a = a /\\ c b = b'], body='if 0 < n then begin if pure { c (n - 1) = n - 1 } then nrep_some c (n - 1) else nrep_two c (n - 1) end', rec=True, variant='if n < 0 then 0 else n', use=['linked'], lemmas=['nrep_some'])
lemma('kruskal_disc', '(es: vec edge) (sx em: vec int) (i fnd n: int) (cls at_ cnt: int -> int) (sep: int -> int -> int)', ['kruskal es sx em i fnd n cls at_ cnt sep', 'i = sx.len', 'fnd < n - 1', 'is_perm sx es.len'], ['not (connected es n)'],
      body='kruskal_joins es sx em i fnd n cls at_ cnt sep; nrep_two cls n; assert { forall e. 0 <= e < es.len -> occurs sx e && joins es cls e }', use=['bpt'], lemmas=['nrep_two', 'kruskal_joins'])

# bpt_canonical_from_sorted_edges
XE = '(mk_es xsources xtargets)'; SX = 'xsorted_edge_indices'
FST = 'bpt_forest es0 %s mst_edge_map parents roots num_edge_found num_vertices cls at_ reg lc rc wl' % SX
KS = 'kruskal es0 %s mst_edge_map i num_edge_found num_vertices cls at_ cnt sep' % SX
fn('hg::hierarchy_core_internal::bpt_canonical_from_sorted_edges', 'bpt_sorted', use=['bpt'], lemmas=['kruskal_init', 'kruskal_keep', 'kruskal_skip', 'bpt_init', 'bpt_step', 'bpt_end', 'kruskal_disc'],
   requires=['xsources.len = xtargets.len', SX + '.len = xsources.len', '1 <= num_vertices', 'live_edges %s num_vertices' % XE, 'is_perm %s xsources.len' % SX],
   ensures=[('a rooted, topologically ordered tree whose leaves are the vertices', 'result.fst.len = 2 * num_vertices - 1 /\\ parents_ok result.fst num_vertices'), ('one selected edge per merging', 'result.snd.len = num_vertices - 1'),
            ('binary merging of the regions linked by the selected edges', 'bpt_done %s %s result.snd result.fst num_vertices' % (XE, SX)), ('connected', 'connected %s num_vertices' % XE)], raises='not (connected %s num_vertices)' % XE,
   at={'entry': GH0[:1] + ['let ghost es0 = pure { %s } in' % XE] + GH0[1:] + ['let ghost ref reg = pure { fun (v: int) -> fun (a: int) -> v = a } in', 'let ghost ref lc = pure { fun (k: int) -> k } in', 'let ghost ref rc = pure { fun (k: int) -> k } in', 'let ghost ref wl = pure { fun (k: int) -> k } in'],
       'loop1.pre': ['kruskal_init es0 %s mst_edge_map num_vertices' % SX, 'bpt_init es0 %s mst_edge_map parents roots num_vertices' % SX],
       'loop1.begin': ['let ghost f0 = num_edge_found in', 'let ghost i0 = i in', 'let ghost em0 = mst_edge_map in', 'let ghost cls0 = cls in', 'let ghost p0 = parents in', 'let ghost roots0 = roots in', 'let ghost e0 = %s.elts i in' % SX, 'let ghost s0 = xsources.elts e0 in', 'let ghost t0 = xtargets.elts e0 in',
           'assert { 0 <= s0 < num_vertices /\\ 0 <= t0 < num_vertices /\\ es0[e0].edge_source = s0 /\\ es0[e0].edge_target = t0 }', 'assert { parti cls num_vertices }'] + ['assert { 0 <= cls X < num_vertices /\\ cls (cls X) = cls X /\\ 0 <= roots[cls X] < num_nodes }'.replace('X', x) for x in ('s0', 't0')],
       'call:uf_link': ['let ghost h2 = any int -> int ensures { uf_inv uf (uf_merge cls0 c1 c2 r_uf_link) result } in', 'rr <- r_uf_link; hh <- h2'],
       'loop1.end': [('if num_edge_found <> f0 then begin let ghost g, ghost l, ghost r, ghost w = bpt_step es0 SX em0 mst_edge_map p0 parents roots0 roots i0 f0 num_vertices cls0 at_ cnt sep reg lc rc wl rr in '
                      'let ghost a, ghost c, ghost s = kruskal_keep es0 SX em0 mst_edge_map i0 f0 num_vertices cls0 at_ cnt sep rr in cls <- pure { uf_merge cls0 c1 c2 rr }; at_ <- a; cnt <- c; sep <- s; reg <- g; lc <- l; rc <- r; wl <- w end '
                      'else begin let ghost c = kruskal_skip es0 SX mst_edge_map i0 f0 num_vertices cls0 at_ cnt sep in cnt <- c end').replace('SX', SX)],
       'loop1.post': [('if num_edge_found = num_vertices - 1 then bpt_end es0 SX mst_edge_map parents roots i num_vertices cls at_ cnt sep reg lc rc wl else kruskal_disc es0 SX mst_edge_map i num_edge_found num_vertices cls at_ cnt sep').replace('SX', SX)]},
   loops={1: dict(inv=[KS, FST, 'uf_inv uf cls hh', 'uf.uf_parent.len = num_vertices', 'num_nodes = num_vertices + num_edge_found'], var=SX + '.len - i')})

lemma('es_conn', '(es: vec edge) (n: int)', [], ['forall es1. same_es es es1 -> (connected es1 n <-> connected es n)'],
      body='assert { forall es1 f. same_es es es1 -> ((forall e. 0 <= e < es.len -> joins es f e) <-> (forall e. 0 <= e < es.len -> joins es1 f e)) }; assert { forall es1 a b. same_es es es1 -> (linked es a b <-> linked es1 a b) }', use=['bpt'])
lemma('es_by', '(es es1: vec edge) (em: vec int) (m: int)', ['same_es es es1', 'forall k. 0 <= k < m -> 0 <= em[k] < es.len'], ['forall c a b. c <= m -> linked_by es1 em c a b -> linked_by es em c a b'],
      body='assert { forall f: int -> int. forall c. c <= m -> (forall k. 0 <= k < c -> joins es f em[k]) -> forall k. 0 <= k < c -> joins es1 f em[k] }', use=['bpt'])
lemma('es_gen', '(es es1: vec edge) (em: vec int) (m: int) (c: int -> int) (n: int)', ['same_es es es1', 'forall k. 0 <= k < m -> 0 <= em[k] < es.len', 'generated es1 em m c n'], ['generated es em m c n'],
      body='assert { forall f: int -> int. (forall k. 0 <= k < m -> joins es f em[k]) -> forall k. 0 <= k < m -> joins es1 f em[k] }', use=['bpt'])
lemma('es_kruskal', '(es es1: vec edge) (sx em: vec int) (i fnd n: int) (cls at_ cnt: int -> int) (sep: int -> int -> int)', ['same_es es es1', 'in_range es sx', 'kruskal es1 sx em i fnd n cls at_ cnt sep'], ['kruskal es sx em i fnd n cls at_ cnt sep'],
      body='assert { forall k. 0 <= k < fnd -> 0 <= em[k] < es.len }; es_gen es es1 em fnd cls n; es_by es es1 em fnd', use=['bpt'], lemmas=['es_gen', 'es_by'])
lemma('node_linkage', '(es es1: vec edge) (sx em p: vec int) (n: int) (w: vec real) (k r x y: int)', ['same_es es es1', 'sorted_edges w sx es.len', 'node_by_rank es1 sx em p n k r x y'], ['linkage_node es w p n k em[k]'],
      body='assert { forall e. 0 <= e < es.len -> occurs sx e }; assert { forall j. 0 <= j < sx.len -> between es p x y sx[j] -> between es1 p x y sx[j] && (j = r \\/ r < j) }; '
           'assert { forall j. 0 <= j < sx.len -> between es p x y sx[j] -> sx[j] = em[k] \\/ before_r w em[k] sx[j] }; '
           'assert { forall f. 0 <= f < es.len -> between es p x y f -> occurs sx f && (f = em[k] \\/ before_r w em[k] f) }; assert { binary_node es p (n + k) em[k] x y }', use=['bpt'])
lemma('node_linkages', '(es es1: vec edge) (sx em p: vec int) (n: int) (w: vec real) (at_: int -> int)', ['same_es es es1', 'sorted_edges w sx es.len', 'forall k. 0 <= k < n - 1 -> some_rank es1 sx em p n k (at_ k)'], ['forall k. 0 <= k < n - 1 -> linkage_node es w p n k em[k]'],
      body='for k = 0 to n - 2 do invariant { forall j. 0 <= j < k -> linkage_node es w p n j em[j] } assert { some_rank es1 sx em p n k (at_ k) }; let ghost x, ghost y = any (int, int) ensures { let (x, y) = result in node_by_rank es1 sx em p n k (at_ k) x y } in node_linkage es es1 sx em p n w k (at_ k) x y done', use=['bpt'], lemmas=['node_linkage'])
lemma('es_bpt', '(es es1: vec edge) (sx em p: vec int) (n: int) (w: vec real)', ['same_es es es1', 'sorted_edges w sx es.len', 'bpt_done es1 sx em p n', 'em.len = n - 1', 'live_edges es n'],
      ['in_range es em', 'kruskal_order w em', 'forest es em', 'left_out es w em', 'forall k. 0 <= k < n - 1 -> linkage_node es w p n k em[k]'],
      body='let ghost i, ghost cls, ghost at_, ghost cnt, ghost sep = any (int, int -> int, int -> int, int -> int, int -> int -> int) ensures { let (i, cls, at_, cnt, sep) = result in kruskal es1 sx em i (n - 1) n cls at_ cnt sep /\\ forall k. 0 <= k < n - 1 -> some_rank es1 sx em p n k (at_ k) } in '
           'es_kruskal es es1 sx em i (n - 1) n cls at_ cnt sep; kruskal_end es sx em em w i (n - 1) n cls at_ cnt sep; node_linkages es es1 sx em p n w at_', use=['bpt'], lemmas=['es_kruskal', 'kruskal_end', 'node_linkages'])
T = 'result.node_weighted_tree_and_mst_tree'; A = 'result.node_weighted_tree_and_mst_altitudes'; M = 'result.node_weighted_tree_and_mst_mst_edge_map'
BPT_ENS = [('a tree whose leaves are the vertices', 'tree_ok {0} /\\ {0}.tree_num_leaves = {1} /\\ {0}.tree_parents.len = 2 * {1} - 1'.format(T, N)), ('one selected edge per inner node', '%s.len = %s - 1 /\\ in_range %s %s' % (M, N, ES, M)),
            ('leaves at altitude zero', '{0}.len = 2 * {1} - 1 /\\ forall v. 0 <= v < {1} -> {0}[v] = 0.0'.format(A, N)), ('the altitude of an inner node is the weight of its edge', 'forall k. 0 <= k < {1} - 1 -> {0}[{1} + k] = xedge_weights[{2}[k]]'.format(A, N, M)),
            ('inner altitudes never decrease towards the root', 'forall u. {1} <= u < 2 * {1} - 1 -> {0}[u] <=. {0}[{2}.tree_parents[u]]'.format(A, N, T)),
            ('each edge links the two child regions of its node and no other edge between them precedes it', 'forall k. 0 <= k < {1} - 1 -> linkage_node {3} xedge_weights {0}.tree_parents {1} k {2}[k]'.format(T, N, M, ES)),
            ("selected edges: Kruskal's minimum spanning tree", 'kruskal_order xedge_weights {0} /\\ forest {1} {0} /\\ left_out {1} xedge_weights {0}'.format(M, ES)),
            ('only for a connected graph', 'connected %s %s' % (ES, N))]
fn('hg::bpt_canonical', 'bpt', use=['bpt', 'tree'], sig='vecS', lemmas=['es_conn', 'es_bpt', 'leaves_uniq'], requires=['ug_ok graph', 'live_edges %s %s' % (ES, N), 'xedge_weights.len = %s.len' % ES, '1 <= ' + N],
   ensures=BPT_ENS, raises='not (connected %s %s)' % (ES, N),
   at={'entry': ['es_conn %s %s' % (ES, N)],
       'return': [X.replace('result', 'res_').replace('NN', N) for X in ('assert { parents_ok %s.tree_parents NN }' % T, 'leaves_uniq %s.tree_parents %s.tree_num_leaves NN' % (T, T), 'assert { parents_ok %s.tree_parents NN }' % T,
          'assert { forall i j. 0 <= i < j < NN - 1 -> xedge_weights[%s[i]] <=. xedge_weights[%s[j]] }' % (M, M), 'assert { forall u. NN <= u < 2 * NN - 1 -> let q = %s.tree_parents[u] in u <= q < 2 * NN - 1 /\\ %s[u] = xedge_weights[%s[u - NN]] /\\ %s[q] = xedge_weights[%s[q - NN]] }' % (T, A, M, A, M))],
       'before:bpt_sorted': ['assert { sorted_edges xedge_weights sorted_edges_indices %s.len }' % ES],
       'call:bpt_sorted': ['let ghost es1 = any vec edge ensures { same_es %s result /\\ bpt_done result sorted_edges_indices r_bpt_sorted.snd r_bpt_sorted.fst %s }  in' % (ES, N), 'es_bpt %s es1 sorted_edges_indices r_bpt_sorted.snd r_bpt_sorted.fst %s xedge_weights' % (ES, N)]})
prop('C06', ['bpt', 'bpt_sorted', 'stable_arg_sort_d', 'stable_arg_sort_d_less', 'uf_new', 'uf_find', 'uf_link', 'tree_new_m'], lemmas=['linked_path', 'walk_linked'], harness='C06.cpp')
