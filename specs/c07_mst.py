# connectivity by a set of edges, and Kruskal's order
theory('linked', '''
(** edge e does not separate the classes of f *)
predicate joins (es: vec edge) (f: int -> int) (e: int) = f es[e].edge_source = f es[e].edge_target
(** a and b are linked by the edges of es (equivalently, by a path of them: lemmas walk_linked and linked_path): no labelling constant along the edges separates them *)
predicate linked (es: vec edge) (a b: int) = forall f: int -> int. (forall e. 0 <= e < es.len -> joins es f e) -> f a = f b
(** the same with the first m edges listed in em *)
predicate linked_by (es: vec edge) (em: vec int) (m a b: int) = forall f: int -> int. (forall k. 0 <= k < m -> joins es f em[k]) -> f a = f b
(** the same with the edges listed in em that are strictly before e in Kruskal's order *)
predicate linked_before (es: vec edge) (w: vec real) (em: vec int) (m e: int) = forall f: int -> int. (forall k. 0 <= k < m -> before_r w em[k] e -> joins es f em[k]) -> joins es f e
predicate all_live (g: ug) = forall e. 0 <= e < g.ug_edges.len -> live g.ug_edges[e] g.ug_num_vertices
let rec ghost function nrep (c: int -> int) (n: int) : int variant { n } = if n <= 0 then 0 else nrep c (n - 1) + (if c (n - 1) = n - 1 then 1 else 0)
(** partition of 0 .. n-1 given by the representative of each class *)
predicate parti (c: int -> int) (n: int) = forall a. 0 <= a < n -> 0 <= c a < n /\\ c (c a) = c a
(** the partition is generated by the first m edges listed in em *)
predicate generated (es: vec edge) (em: vec int) (m: int) (c: int -> int) (n: int) = (forall k. 0 <= k < m -> joins es c em[k]) /\\ forall f: int -> int. (forall k. 0 <= k < m -> joins es f em[k]) -> forall a. 0 <= a < n -> f (c a) = f a
predicate adj (es: vec edge) (a b: int) = exists e. 0 <= e < es.len /\\ ((es[e].edge_source = a /\\ es[e].edge_target = b) \\/ (es[e].edge_source = b /\\ es[e].edge_target = a))
predicate walk (es: vec edge) (a b: int) (p: int -> int) (k: int) = 0 <= k /\\ p 0 = a /\\ p k = b /\\ forall i. 0 <= i < k -> adj es (p i) (p (i + 1))
predicate path (es: vec edge) (a b: int) = exists p k. walk es a b p k
''', deps=['ug', 'argsort'])
lemma('path_step', '(es: vec edge) (a b c: int)', ['path es a b', 'adj es b c'], ['path es a c'], body='let ghost p, ghost k = any (int -> int, int) ensures { let (p, k) = result in walk es a b p k } in let ghost q = pure { Map.set p (k + 1) c } in assert { walk es a c q (k + 1) }', use=['linked'])
lemma('path_steps', '(es: vec edge) (a: int)', [], ['forall b c. path es a b -> adj es b c -> path es a c'], body='assert { forall b p k c. walk es a b p k -> adj es b c -> walk es a c (Map.set p (k + 1) c) (k + 1) }', use=['linked'])
lemma('linked_path', '(es: vec edge) (a b: int)', ['linked es a b'], ['path es a b'], body='let ghost f = pure { fun x -> if path es a x then 1 else 0 } in path_steps es a; assert { walk es a a (fun _ -> a) 0 }; assert { forall e. 0 <= e < es.len -> adj es es[e].edge_source es[e].edge_target /\\ adj es es[e].edge_target es[e].edge_source }; assert { forall e. 0 <= e < es.len -> joins es f e }', use=['linked'], lemmas=['path_steps'])
lemma('walk_linked', '(es: vec edge) (a b: int) (p: int -> int) (k: int)', ['walk es a b p k'], ['linked es a b'], body='if 0 < k then begin walk_linked es a (p (k - 1)) p (k - 1); assert { adj es (p (k - 1)) (p (k - 1 + 1)) } end', rec=True, variant='k', use=['linked'])
lemma('nrep_id', '(c: int -> int) (n: int)', ['forall a. 0 <= a < n -> c a = a', '0 <= n'], ['nrep c n = n'], body='if 0 < n then nrep_id c (n - 1)', rec=True, variant='n', use=['linked'])
lemma('nrep_one', '(c: int -> int) (n: int)', ['0 <= n'], ['nrep c n >= 0', 'forall i. 0 <= i < n -> c i = i -> nrep c n >= 1', 'forall i j. 0 <= i < j < n -> c i = i -> c j = j -> nrep c n >= 2'], body='if 0 < n then nrep_one c (n - 1)', rec=True, variant='n', use=['linked'])
lemma('nrep_merge', '(c: int -> int) (i j r m n: int)', ['parti c n', '0 <= i < n', '0 <= j < n', 'c i = i', 'c j = j', 'i <> j', 'r = i \\/ r = j', '0 <= m <= n'],
      ['nrep (uf_merge c i j r) m = nrep c m - (if i + j - r < m then 1 else 0)'], body='if 0 < m then nrep_merge c i j r (m - 1) n', rec=True, variant='m', use=['linked', 'uf'])
lemma('gen_merge', '(es: vec edge) (em: vec int) (m: int) (c: int -> int) (n i j r: int)', ['parti c n', 'generated es em m c n', '0 <= m', '0 <= es[em[m]].edge_source < n', '0 <= es[em[m]].edge_target < n', 'i = c es[em[m]].edge_source', 'j = c es[em[m]].edge_target', 'r = i \\/ r = j'],
      ['parti (uf_merge c i j r) n', 'generated es em (m + 1) (uf_merge c i j r) n'],
      body='assert { forall f: int -> int. (forall k. 0 <= k < m + 1 -> joins es f em[k]) -> forall a. 0 <= a < n -> f (uf_merge c i j r a) = f a by (forall k. 0 <= k < m -> joins es f em[k]) so joins es f em[m] so f (c a) = f a so f i = f es[em[m]].edge_source so f j = f es[em[m]].edge_target }', use=['linked', 'uf'])
lemma('gen_frame', '(es: vec edge) (em em2: vec int) (m: int) (c: int -> int) (n: int)', ['generated es em m c n', 'forall k. 0 <= k < m -> em[k] = em2[k]'], ['generated es em2 m c n'],
      body='assert { forall f: int -> int. (forall k. 0 <= k < m -> joins es f em2[k]) -> forall k. 0 <= k < m -> joins es f em[k] }', use=['linked'])
lemma('lb_frame', '(es: vec edge) (em em2: vec int) (m: int)', ['forall k. 0 <= k < m -> em[k] = em2[k]'], ['forall a b c. c <= m -> linked_by es em c a b -> linked_by es em2 c a b'],
      body='assert { forall f: int -> int. forall c. c <= m -> (forall k. 0 <= k < c -> joins es f em2[k]) -> (forall k. 0 <= k < c -> joins es f em[k]) }', use=['linked'])
lemma('gen_linked', '(es: vec edge) (em: vec int) (m: int) (c: int -> int) (n: int)', ['generated es em m c n'], ['forall a b. 0 <= a < n -> 0 <= b < n -> c a = c b -> linked_by es em m a b'],
      body='()', use=['linked'])
lemma('nrep_all', '(c: int -> int) (n: int)', ['parti c n', 'nrep c n = 1'], ['forall a b. 0 <= a < n -> 0 <= b < n -> c a = c b'], body='nrep_one c n; assert { forall a b. 0 <= a < n -> 0 <= b < n -> c a <> c b -> c a < c b \\/ c b < c a }', use=['linked'], lemmas=['nrep_one'])
theory('kruskal', """
(** state of Kruskal's algorithm after the first i edges of sx: fnd edges selected (listed in em, found at the ranks at_), cnt j of them before rank j, sep k separates edge k from the preceding ones *)
predicate kruskal (es: vec edge) (sx em: vec int) (i fnd n: int) (cls at_ cnt: int -> int) (sep: int -> int -> int) =
  0 <= i <= sx.len /\\ 0 <= fnd <= n - 1 /\\ parti cls n /\\ nrep cls n = n - fnd /\\ generated es em fnd cls n /\\
  (forall k. 0 <= k < fnd -> 0 <= at_ k < sx.len /\\ em[k] = sx[at_ k]) /\\ (forall k l. 0 <= k < l < fnd -> at_ k < at_ l) /\\ (forall k. 0 <= k < fnd -> at_ k < i) /\\
  (forall j. 0 <= j < i -> 0 <= cnt j <= fnd /\\ (forall k. 0 <= k < fnd -> (k < cnt j <-> at_ k < j)) /\\ ((cnt j < fnd /\\ at_ (cnt j) = j) \\/ linked_by es em (cnt j) es[sx[j]].edge_source es[sx[j]].edge_target)) /\\
  (forall k l. 0 <= l < k < fnd -> joins es (sep k) em[l]) /\\ (forall k. 0 <= k < fnd -> not (joins es (sep k) em[k]))
predicate sorted_edges (w: vec real) (sx: vec int) (n: int) = is_perm sx n /\\ forall k l. 0 <= k < l < n -> before_r w sx[k] sx[l]
predicate kruskal_order (w: vec real) (em: vec int) = forall k l. 0 <= k < l < em.len -> before_r w em[k] em[l]
predicate forest (es: vec edge) (em: vec int) = forall k. 0 <= k < em.len -> not (linked_by es em k es[em[k]].edge_source es[em[k]].edge_target)
predicate excused (es: vec edge) (w: vec real) (em: vec int) (e: int) = (exists k. 0 <= k < em.len /\\ em[k] = e) \\/ linked_before es w em em.len e
predicate left_out (es: vec edge) (w: vec real) (em: vec int) = forall e. 0 <= e < es.len -> excused es w em e
predicate in_range (es: vec edge) (em: vec int) = forall k. 0 <= k < em.len -> 0 <= em[k] < es.len
predicate live_edges (es: vec edge) (n: int) = forall e. 0 <= e < es.len -> 0 <= es[e].edge_source < n /\\ 0 <= es[e].edge_target < n
""", deps=['linked', 'uf'])
K = 'kruskal es sx em %s %s n %s %s cnt sep'
lemma('kruskal_keep', '(es: vec edge) (sx em em2: vec int) (i fnd n: int) (cls at_ cnt: int -> int) (sep: int -> int -> int) (r: int)',
      ['kruskal es sx em i fnd n cls at_ cnt sep', 'i < sx.len', 'fnd < n - 1', 'let e = es[sx[i]] in 0 <= e.edge_source < n /\\ 0 <= e.edge_target < n /\\ cls e.edge_source <> cls e.edge_target /\\ (r = cls e.edge_source \\/ r = cls e.edge_target)',
       'em2[fnd] = sx[i]', 'forall k. 0 <= k < fnd -> em[k] = em2[k]'],
      ['let e = es[sx[i]] in kruskal es sx em2 (i + 1) (fnd + 1) n (uf_merge cls (cls e.edge_source) (cls e.edge_target) r) at2 cnt2 sep2', 'at2 = Map.set at_ fnd i'],
      body='let ghost e = es.elts (sx.elts i) in gen_frame es em em2 fnd cls n; lb_frame es em em2 fnd; gen_merge es em2 fnd cls n (cls e.edge_source) (cls e.edge_target) r; nrep_merge cls (cls e.edge_source) (cls e.edge_target) r n n; nrep_one cls n; '
           'let ghost a = pure { Map.set at_ fnd i } in let ghost c = pure { Map.set cnt i fnd } in let ghost s = pure { Map.set sep fnd cls } in (a, c, s)', ret='(at2: int -> int, cnt2: int -> int, sep2: int -> int -> int)', use=['kruskal'], lemmas=['gen_frame', 'lb_frame', 'gen_merge', 'nrep_merge', 'nrep_one'])
lemma('kruskal_skip', '(es: vec edge) (sx em: vec int) (i fnd n: int) (cls at_ cnt: int -> int) (sep: int -> int -> int)',
      ['kruskal es sx em i fnd n cls at_ cnt sep', 'i < sx.len', 'let e = es[sx[i]] in 0 <= e.edge_source < n /\\ 0 <= e.edge_target < n /\\ cls e.edge_source = cls e.edge_target'], ['kruskal es sx em (i + 1) fnd n cls at_ result sep'],
      body='gen_linked es em fnd cls n; let ghost c = pure { Map.set cnt i fnd } in c', ret='int -> int', use=['kruskal'], lemmas=['gen_linked'])
lemma('kruskal_init', '(es: vec edge) (sx em: vec int) (n: int)', ['1 <= n', '0 <= sx.len'], ['kruskal es sx em 0 0 n (fun k -> k) (fun k -> k) (fun k -> k) (fun _ k -> k)'], body='let ghost c = pure { fun (k: int) -> k } in nrep_id c n; assert { generated es em 0 c n }', use=['kruskal'], lemmas=['nrep_id'])
lemma('left_out_all', '(es: vec edge) (sx em: vec int) (w: vec real)', ['is_perm sx es.len', 'forall j. 0 <= j < sx.len -> excused es w em sx[j]'], ['left_out es w em'],
      body='assert { forall e. 0 <= e < es.len -> occurs sx e && excused es w em e }', use=['kruskal'])
lemma('kruskal_end', '(es: vec edge) (sx em em2: vec int) (w: vec real) (i fnd n: int) (cls at_ cnt: int -> int) (sep: int -> int -> int)',
      ['kruskal es sx em i fnd n cls at_ cnt sep', 'sorted_edges w sx es.len', 'i = sx.len \\/ fnd = n - 1', 'em2.len = fnd', 'forall k. 0 <= k < fnd -> em[k] = em2[k]', 'live_edges es n'],
      ['in_range es em2', 'kruskal_order w em2', 'forest es em2', 'left_out es w em2', 'forall e. 0 <= e < es.len -> linked_by es em2 em2.len es[e].edge_source es[e].edge_target'],
      body='lb_frame es em em2 fnd; gen_linked es em fnd cls n; if fnd = n - 1 then nrep_all cls n; '
           'assert { forall k. 0 <= k < fnd -> not (joins es (sep k) em2[k]) /\\ forall l. 0 <= l < k -> joins es (sep k) em2[l] }; '
           'let ghost c2 = pure { fun j -> if j < i then cnt j else fnd } in assert { kruskal es sx em sx.len fnd n cls at_ c2 sep }; '
           'assert { forall k j. 0 <= k < fnd -> 0 <= j < sx.len -> at_ k < j -> before_r w em2[k] sx[j] }; '
           'assert { forall j. 0 <= j < sx.len -> (c2 j < fnd /\\ em2[c2 j] = sx[j]) \\/ (linked_by es em2 (c2 j) es[sx[j]].edge_source es[sx[j]].edge_target /\\ forall k. 0 <= k < c2 j -> before_r w em2[k] sx[j]) }; '
           'assert { forall j. 0 <= j < sx.len -> excused es w em2 sx[j] }; '
           'left_out_all es sx em2 w; assert { forall e. 0 <= e < es.len -> occurs sx e }', use=['kruskal'], lemmas=['left_out_all', 'gen_linked', 'lb_frame', 'nrep_all'])
ES = 'graph.ug_edges'
MM = 'result.minimum_spanning_tree_result_mst'; EM = 'result.minimum_spanning_tree_result_mst_edge_map'; N = 'graph.ug_num_vertices'
KST = 'kruskal %s %s %s %s %s %s cls at_ cnt sep'
GH0 = ['let ghost ref cls = pure { fun (k: int) -> k } in', 'let ghost ref hh = pure { fun (k: int) -> 0 } in', 'let ghost ref at_ = pure { fun (k: int) -> k } in', 'let ghost ref cnt = pure { fun (k: int) -> k } in', 'let ghost ref sep = pure { fun (j: int) -> fun (k: int) -> k } in', 'let ghost ref rr = 0 in']
SO = 'sorted_edges_indices'
fn('hg::minimum_spanning_tree', 'mst', use=['kruskal'], sig='vecS', requires=['ug_ok graph', 'live_edges %s %s' % (ES, N), 'xedge_weights.len = %s.len' % ES, '1 <= ' + N],
   lemmas=['kruskal_init', 'kruskal_keep', 'kruskal_skip', 'kruskal_end'],
   ensures=[('a graph on the same vertices', 'ug_ok {0} /\\ {0}.ug_num_vertices = {1} /\\ {0}.ug_edges.len = {2}.len'.format(MM, N, EM)),
            ('valid edge map', 'in_range %s %s' % (ES, EM)),
            ('the i-th edge is the graph edge given by the edge map', 'forall k. 0 <= k < {1}.len -> {0}.ug_edges[k].edge_source = {2}[{1}[k]].edge_source /\\ {0}.ug_edges[k].edge_target = {2}[{1}[k]].edge_target'.format(MM, EM, ES)),
            ("selected edges in Kruskal's order", 'kruskal_order xedge_weights ' + EM), ('forest: a selected edge links two vertices that the preceding selected edges do not link', 'forest %s %s' % (ES, EM)),
            ('an edge is left out only if selected edges preceding it link its extremities', 'left_out %s xedge_weights %s' % (ES, EM)),
            ('connects exactly what the graph connects', 'forall a b. linked {0}.ug_edges a b <-> linked {1} a b'.format(MM, ES))],
   at={'entry': GH0,
       'loop1.pre': ['kruskal_init %s %s mst_edge_map %s' % (ES, SO, N), 'assert { sorted_edges xedge_weights %s %s.len }' % (SO, ES)],
       'loop1.begin': ['let ghost f0 = num_edge_found in', 'let ghost i0 = i in', 'let ghost em0 = mst_edge_map in', 'let ghost cls0 = cls in'],
       'call:uf_link': ['let ghost h2 = any int -> int ensures { uf_inv uf (uf_merge cls0 c1 c2 r_uf_link) result } in', 'rr <- r_uf_link; hh <- h2'],
       'loop1.end': ['if num_edge_found <> f0 then begin let ghost a, ghost c, ghost s = kruskal_keep %s %s em0 mst_edge_map i0 f0 %s cls0 at_ cnt sep rr in cls <- pure { uf_merge cls0 c1 c2 rr }; at_ <- a; cnt <- c; sep <- s end else begin let ghost c = kruskal_skip %s %s mst_edge_map i0 f0 %s cls0 at_ cnt sep in cnt <- c end' % (ES, SO, N, ES, SO, N)],
       'return': ['kruskal_end %s %s mst_edge_map res_.minimum_spanning_tree_result_mst_edge_map xedge_weights i num_edge_found %s cls at_ cnt sep' % (ES, SO, N)]},
   loops={1: dict(inv=[KST % (ES, SO, 'mst_edge_map', 'i', 'num_edge_found', N), 'uf_inv uf cls hh', 'uf.uf_parent.len = ' + N, 'ug_ok mst', 'mst.ug_num_vertices = ' + N, 'mst.ug_edges.len = num_edge_found',
      'forall k. 0 <= k < num_edge_found -> mst.ug_edges[k].edge_source = {0}[mst_edge_map[k]].edge_source /\\ mst.ug_edges[k].edge_target = {0}[mst_edge_map[k]].edge_target'.format(ES)], var=SO + '.len - i')})
prop('C07', ['mst', 'stable_arg_sort_d', 'stable_arg_sort_d_less', 'ug_new', 'ug_add_edge_', 'uf_new', 'uf_find', 'uf_link'], lemmas=['linked_path', 'walk_linked'], harness='C07.cpp')
