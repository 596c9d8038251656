# two-colouring of a graph
theory('bip', """
predicate joins (e: edge) (v n: int) = v <> -1 /\\ n <> -1 /\\ (e.edge_source = v /\\ e.edge_target = n \\/ e.edge_source = n /\\ e.edge_target = v)
(** c gives different colours to the two extremities of every edge *)
predicate proper (es: vec edge) (c: int -> bool) = forall e. 0 <= e < es.len -> es[e].edge_source <> -1 -> c es[e].edge_source <> c es[e].edge_target
predicate bipartite (es: vec edge) = exists c. proper es c
(** every two-colouring gives v the colour of its component representative, or the other one, as color tells *)
predicate forced (es: vec edge) (color: vec int) (comp: int -> int) = forall c. proper es c -> forall v. 0 <= v < color.len -> color[v] <> 2 -> (c v = c (comp v) <-> color[v] = 0)
predicate closed_at (es: vec edge) (color: vec int) (comp: int -> int) (v: int) = forall e n. 0 <= e < es.len -> joins es[e] v n -> 0 <= n < color.len /\\ color[n] <> 2 /\\ color[n] <> color[v] /\\ comp n = comp v
predicate on_stack (st: vec int) (v: int) = exists k. 0 <= k < st.len /\\ st[k] = v
predicate colours (color: vec int) = forall v. 0 <= v < color.len -> color[v] = 0 \\/ color[v] = 1 \\/ color[v] = 2
let rec ghost function ncol (c: vec int) (j: int) : int variant { j } = if j <= 0 then 0 else ncol c (j - 1) + (if c.elts (j - 1) = 2 then 1 else 0)
function other_ (e: edge) (v: int) : int = if e.edge_source = v then e.edge_target else e.edge_source
predicate two_coloured (es: vec edge) (color: vec int) = (forall v. 0 <= v < color.len -> color[v] = 0 \\/ color[v] = 1) /\\ forall e. 0 <= e < es.len -> es[e].edge_source <> -1 -> color[es[e].edge_source] <> color[es[e].edge_target]
""", deps=['ug'])
lemma('ncol_pos', '(c: vec int) (j: int)', [], ['ncol c j >= 0'], body='if 0 < j then ncol_pos c (j - 1)', rec=True, variant='(if j < 0 then 0 else j)', use=['bip'])
lemma('ncol_same', '(c c2: vec int) (j: int)', ['forall u. 0 <= u < j -> c[u] = c2[u]'], ['ncol c j = ncol c2 j'], body='if 0 < j then ncol_same c c2 (j - 1)', rec=True, variant='(if j < 0 then 0 else j)', use=['bip'])
lemma('ncol_set', '(c c2: vec int) (n j: int)', ['0 <= n < j', 'c[n] = 2', 'c2[n] <> 2', 'forall u. 0 <= u < j -> u <> n -> c[u] = c2[u]'], ['ncol c2 j = ncol c j - 1'],
      body='if n < j - 1 then ncol_set c c2 n (j - 1) else ncol_same c c2 (j - 1)', rec=True, variant='j', use=['bip'], lemmas=['ncol_same'])
ES, NVG = 'g.ug_edges', 'g.ug_num_vertices'
COLS = ['color.len = ' + NVG, 'colours color', 'forced %s color comp' % ES]
fn('hg::is_bipartite_graph', 'bip_graph', sig='undirected', use=['bip'], lemmas=['ncol_set', 'ncol_pos'], requires=['ug_ok g'],
   ensures=[('yes exactly when a two-colouring exists', 'result.fst = True <-> bipartite ' + ES), ('a proper two-colouring of the vertices', 'result.fst = True -> result.snd.len = %s /\\ two_coloured %s result.snd' % (NVG, ES)), ('no colour otherwise', 'result.fst = False -> result.snd.len = 0')],
   at={'entry': ['let ghost ref comp = (fun (x: int) -> x) in', 'let ghost pos = any int -> int -> int ensures { adj_ok g.ug_num_vertices g.ug_edges g.ug_out_edges result } in'],
       'loop1.begin': ['let ghost c1 = color in', 'let ghost m1 = comp in'],
       'after:color:1': ['comp <- Map.set comp o o', 'assert { forall u. 0 <= u < color.len -> c1[u] <> 2 -> closed_at %s c1 m1 u -> closed_at %s color comp u }' % (ES, ES), 'assert { stack[0] = o /\\ on_stack stack o }'],
       'loop2.begin': ['let ghost s2 = stack in', 'ncol_pos color ' + NVG],
       'loop3.pre': ['assert { v = s2[stack.len] }', 'assert { forall u. on_stack s2 u -> u = v \\/ on_stack stack u }'],
       'loop3.begin': ['let ghost c0 = color in', 'let ghost s0 = stack in', 'let ghost m0 = comp in', 'let ghost nn = pure { other_ g.ug_edges[g.ug_out_edges[v][n_it]] v } in', 'assert { let e = g.ug_out_edges[v][n_it] in 0 <= e < %s.len /\\ joins %s[e] v nn }' % (ES, ES), 'assert { forall c. proper %s c -> c nn <> c v }' % ES, 'assert { color[nn] <> 2 -> comp nn = o }', 'assert { color[nn] <> 2 -> forall c. proper %s c -> color[nn] <> color[v] }' % ES],
       'after:color:2': ['comp <- Map.set comp n o', 'ncol_set c0 color n ' + NVG, 'assert { forall u. 0 <= u < color.len -> c0[u] <> 2 -> closed_at %s c0 m0 u -> closed_at %s color comp u }' % (ES, ES)],
       'loop3.end': ['assert { stack.len >= s0.len /\\ forall k. 0 <= k < s0.len -> stack[k] = s0[k] }', 'assert { c0[n] = 2 -> stack[s0.len] = n /\\ stack.len = s0.len + 1 }', 'assert { forall u. on_stack s0 u -> on_stack stack u }', 'assert { color[n] <> 2 -> c0[n] = 2 -> on_stack stack n }'],
       'loop3.post': ['assert { closed_at %s color comp v }' % ES],
       'return': ['if res_.fst then assert { proper %s (fun v -> color[v] = 0) } else assert { forall c. proper %s c -> false }' % (ES, ES)]},
   loops={1: dict(inv=['0 <= o_it <= ' + NVG, 'stack.len = 0', 'forall v. 0 <= v < o_it -> color[v] <> 2', 'forall v. 0 <= v < color.len -> color[v] <> 2 -> closed_at %s color comp v' % ES] + COLS),
          2: dict(inv=['0 <= stack.len', 'forall v. 0 <= v <= o -> color[v] <> 2', 'forall k. 0 <= k < stack.len -> 0 <= stack[k] < color.len /\\ color[stack[k]] <> 2 /\\ comp stack[k] = o',
                       'forall u. 0 <= u < color.len -> color[u] <> 2 -> closed_at %s color comp u \\/ on_stack stack u' % ES] + COLS, var='2 * ncol color %s + stack.len' % NVG),
          3: dict(inv=['0 <= stack.len', '0 <= n_it <= n_end', 'forall v. 0 <= v <= o -> color[v] <> 2', 'forall k. 0 <= k < stack.len -> 0 <= stack[k] < color.len /\\ color[stack[k]] <> 2 /\\ comp stack[k] = o',
                       '0 <= v < color.len', 'color[v] <> 2', 'comp v = o', 'color[v] = color_at3[v]',
                       'forall u. 0 <= u < color.len -> color[u] <> 2 -> u = v \\/ closed_at %s color comp u \\/ on_stack stack u' % ES,
                       'let l = g.ug_out_edges[v] in forall k. 0 <= k < n_it -> let n = other_ g.ug_edges[l[k]] v in 0 <= n < color.len /\\ color[n] <> 2 /\\ color[n] <> color[v] /\\ comp n = o',
                       '2 * ncol color %s + stack.len <= 2 * ncol color_at3 %s + stack_at3.len' % (NVG, NVG)] + COLS)})
theory('bipuf', """
predicate proper2 (ss tt: vec int) (c: int -> bool) = forall k. 0 <= k < ss.len -> c ss[k] <> c tt[k]
(** classes of vertices that are always on the same side; mp gives a vertex of the other side, -1 for the vertices without an edge so far *)
predicate bp_dom (n: int) (cls: int -> int) (mp col: vec int) = mp.len = n /\\ col.len = n /\\
  (forall u. 0 <= u < n -> 0 <= cls u < n /\\ cls (cls u) = cls u /\\ (mp[u] = -1 \\/ 0 <= mp[u] < n)) /\\ (forall u. 0 <= u < n -> col[u] = 0 \\/ col[u] = 1)
predicate bp_single (n: int) (cls: int -> int) (mp: vec int) = forall u w. 0 <= u < n -> 0 <= w < n -> mp[u] = -1 -> cls w = cls u -> w = u
predicate bp_opp (n: int) (cls: int -> int) (mp: vec int) = forall u. 0 <= u < n -> mp[u] <> -1 -> mp[mp[u]] <> -1 /\\ cls mp[u] <> cls u /\\ cls mp[mp[u]] = cls u
predicate bp_same (n: int) (cls: int -> int) (mp: vec int) = forall u w. 0 <= u < n -> 0 <= w < n -> cls u = cls w -> mp[u] <> -1 -> mp[w] <> -1 -> cls mp[u] = cls mp[w]
predicate bp_edges (ss tt: vec int) (i: int) (cls: int -> int) (mp: vec int) = forall k. 0 <= k < i -> mp[ss[k]] <> -1 /\\ cls mp[ss[k]] = cls tt[k]
predicate bp_forced (ss tt: vec int) (n: int) (cls: int -> int) (mp: vec int) = forall c. proper2 ss tt c -> (forall u w. 0 <= u < n -> 0 <= w < n -> cls u = cls w -> c u = c w) /\\ (forall u. 0 <= u < n -> mp[u] <> -1 -> c mp[u] <> c u)
predicate bp_col (n: int) (cls: int -> int) (mp col: vec int) = forall u. 0 <= u < n -> mp[u] <> -1 -> cls u = u -> col[cls mp[u]] <> col[u]
predicate bp_inv (ss tt: vec int) (i n: int) (cls: int -> int) (mp col: vec int) = bp_dom n cls mp col /\\ bp_single n cls mp /\\ bp_opp n cls mp /\\ bp_same n cls mp /\\ bp_edges ss tt i cls mp /\\ bp_forced ss tt n cls mp /\\ bp_col n cls mp col
(** one step: the class opposite to s joins that of t, the class opposite to t that of s *)
predicate bp_half (n: int) (cls cls1: int -> int) (mp mp1: vec int) (s cs ct r: int) = mp1.len = n /\\
  (forall u. 0 <= u < n -> u <> s -> mp1[u] = mp[u]) /\\
  if mp[s] = -1 then mp1[s] = ct /\\ r = ct /\\ (forall u. cls1 u = cls u)
  else mp1[s] = mp[s] /\\ (r = cls mp[s] \\/ r = ct) /\\ (forall u. cls1 u = if cls u = cls mp[s] \\/ cls u = ct then r else cls u)
predicate bip_edges (ss tt: vec int) = exists c. proper2 ss tt c
predicate two_coloured2 (ss tt col: vec int) = (forall v. 0 <= v < col.len -> col[v] = 0 \\/ col[v] = 1) /\\ forall k. 0 <= k < ss.len -> col[ss[k]] <> col[tt[k]]
""", deps=['uf'])
BPA = '(ss tt: vec int) (i n: int) (cls cls1 cls2: int -> int) (mp mp1 mp2 col: vec int) (s t cs ct r1 r2: int)'
BPR = ['0 <= i < ss.len = tt.len', '0 <= s < n', '0 <= t < n', 's = ss[i]', 't = tt[i]', 'forall k. 0 <= k < ss.len -> 0 <= ss[k] < n /\\ 0 <= tt[k] < n', 'cs = cls s', 'ct = cls t', 'cs <> ct',
       'bp_half n cls cls1 mp mp1 s cs ct r1', 'bp_half n cls1 cls2 mp1 mp2 t ct cs r2', 'bp_inv ss tt i n cls mp col']
PRE = '''assert { cls1 cs = cs }; assert { mp1[t] = mp[t] };
 let ghost os = (if mp.elts s = -1 then -1 else cls (mp.elts s)) in let ghost ot = (if mp.elts t = -1 then -1 else cls (mp.elts t)) in
 assert { os <> cs /\\ ot <> ct }; assert { mp[s] <> -1 -> mp[t] <> -1 -> os = ot -> false }; assert { os = ct <-> ot = cs }; assert { r1 = ct \\/ r1 = os /\\ os <> -1 };
 assert { mp[t] <> -1 -> cls1 mp[t] = ot }; assert { r2 = cs \\/ r2 = ot /\\ ot <> -1 };
 assert { forall u. 0 <= u < n -> cls2 u = if cls u = ct \\/ cls u = os then r1 else if cls u = cs \\/ cls u = ot then r2 else cls u }; assert { r1 <> r2 };
 assert { mp2[s] <> -1 /\\ cls2 mp2[s] = r1 /\\ mp2[t] <> -1 /\\ cls2 mp2[t] = r2 /\\ cls2 s = r2 /\\ cls2 t = r1 };
 assert { forall u. 0 <= u < n -> u <> s -> u <> t -> mp2[u] = mp[u] };
'''
for nm, ens, extra in (('single', ['bp_single n cls2 mp2'], ''), ('opp', ['bp_opp n cls2 mp2'], ''), ('same', ['bp_same n cls2 mp2'], ''), ('edges', ['bp_edges ss tt (i + 1) cls2 mp2'], ''),
                       ('forced', ['bp_forced ss tt n cls2 mp2'], 'assert { forall c. proper2 ss tt c -> c s <> c t }')):
    lemma('bp_' + nm + '_', BPA, BPR, ens, body=PRE + extra, use=['bipuf'])

lemma('bp_col_', BPA.replace('col: vec', 'col col2: vec'), BPR + ['col2.len = n', 'col2[r2] = 0', 'col2[r1] = 1', 'forall u. 0 <= u < n -> u <> r1 -> u <> r2 -> col2[u] = col[u]', 'bp_opp n cls2 mp2', 'bp_same n cls2 mp2', 'bp_single n cls2 mp2'], ['bp_dom n cls2 mp2 col2', 'bp_col n cls2 mp2 col2'],
      body=PRE + """assert { cls2 r1 = r1 /\\ cls2 r2 = r2 }; assert { forall u. 0 <= u < n -> col2[u] = 0 \\/ col2[u] = 1 }; assert { forall u. 0 <= u < n -> 0 <= cls2 u < n }; assert { forall u. 0 <= u < n -> cls2 (cls2 u) = cls2 u }; assert { 0 <= mp2[s] < n /\\ 0 <= mp2[t] < n }; assert { forall u. 0 <= u < n -> mp2[u] = -1 \\/ 0 <= mp2[u] < n }; assert { bp_dom n cls2 mp2 col2 }; assert { mp2[r1] <> -1 -> cls2 mp2[r1] = r2 }; assert { mp2[r2] <> -1 -> cls2 mp2[r2] = r1 };
       assert { forall u. 0 <= u < n -> cls2 u = u -> u <> r1 -> u <> r2 -> cls u = u /\\ cls u <> cs /\\ cls u <> ct /\\ cls u <> os /\\ cls u <> ot };
       assert { forall u. 0 <= u < n -> cls2 u = u -> u <> r1 -> u <> r2 -> mp2[u] = mp[u] };
       assert { forall u. 0 <= u < n -> cls2 u = u -> u <> r1 -> u <> r2 -> mp2[u] <> -1 -> cls2 mp2[u] <> r1 /\\ cls2 mp2[u] <> r2 };
       assert { forall u. 0 <= u < n -> cls2 u = u -> u <> r1 -> u <> r2 -> mp2[u] <> -1 -> cls2 mp2[u] = cls mp[u] }""", use=['bipuf'])
lemma('bp_step', BPA.replace('col: vec', 'col col2: vec'), BPR + ['col2.len = n', 'col2[r2] = 0', 'col2[r1] = 1', 'forall u. 0 <= u < n -> u <> r1 -> u <> r2 -> col2[u] = col[u]'], ['bp_inv ss tt (i + 1) n cls2 mp2 col2'],
      body=''.join('bp_%s_ ss tt i n cls cls1 cls2 mp mp1 mp2 col%s s t cs ct r1 r2;\n' % (x, ' col2' if x == 'col' else '') for x in ('single', 'opp', 'same', 'edges', 'forced', 'col')) + '()', use=['bipuf'], lemmas=['bp_%s_' % x for x in ('single', 'opp', 'same', 'edges', 'forced', 'col')])
fn('hg::is_bipartite_graph', 'bip_uf', sig='xexpression', use=['bipuf'], lemmas=['bp_step'], raises='xsources.len <> xtargets.len',
   requires=['0 <= num_vertices', 'forall k. 0 <= k < xsources.len -> 0 <= xsources[k] < num_vertices', 'forall k. 0 <= k < xtargets.len -> 0 <= xtargets[k] < num_vertices'],
   ensures=[('yes exactly when a two-colouring exists', 'result.fst = True <-> bip_edges xsources xtargets'), ('a proper two-colouring of the vertices', 'result.fst = True -> result.snd.len = num_vertices /\\ two_coloured2 xsources xtargets result.snd'), ('no colour otherwise', 'result.fst = False -> result.snd.len = 0')],
   at={'entry': ['let ghost ref cls = (fun (k: int) -> k) in', 'let ghost ref hh = (fun (_: int) -> 0) in'],
       'loop1.begin': ['let ghost cls_0 = cls in', 'let ghost m_0 = map_ in', 'let ghost c_0 = color in', 'let ghost cs_0 = pure { cls xsources[i] } in', 'let ghost ct_0 = pure { cls xtargets[i] } in', 'let ghost ref m_1 = map_ in', 'let ghost ref cls_1 = cls in', 'let ghost ref r_1 = pure { cls xtargets[i] } in', 'let ghost ref r_2 = pure { cls xsources[i] } in'],
       'call:uf_link:1': ['let ghost h2 = any int -> int ensures { uf_inv uf (uf_merge cls (cls map_[s]) ct r_uf_link) result } in hh <- h2', 'cls <- pure { uf_merge cls (cls map_[s]) ct r_uf_link }', 'cls_1 <- cls', 'r_1 <- r_uf_link', 'assert { cls_0 map_[s] <> cs_0 }', 'assert { cls cs_0 = cs_0 }'],
       'before:uf_link:2': ['assert { cls cs_0 = cs_0 }', 'assert { uf.uf_parent[cs_0] = cs_0 }'],
       'call:uf_link:2': ['let ghost h2 = any int -> int ensures { uf_inv uf (uf_merge cls (cls map_[t]) cs r_uf_link_1) result } in hh <- h2', 'cls <- pure { uf_merge cls (cls map_[t]) cs r_uf_link_1 }', 'r_2 <- r_uf_link_1'],
       'after:map_:1': ['m_1 <- map_'],
       'loop1.end': ['bp_step xsources xtargets (i - 1) num_vertices cls_0 cls_1 cls m_0 m_1 map_ c_0 color s t cs_0 ct_0 r_1 r_2'],
       'loop2.pre': ['let ghost col1 = color in'],
       'return': ['if res_.fst then assert { proper2 xsources xtargets (fun v -> color[v] = 0) } else assert { forall c. proper2 xsources xtargets c -> false }']},
   loops={1: dict(inv=['0 <= i <= xsources.len', 'uf_inv uf cls hh', 'uf.uf_parent.len = num_vertices', 'bp_inv xsources xtargets i num_vertices cls map_ color']),
          2: dict(inv=['0 <= i_1 <= num_vertices', 'uf_inv uf cls hh', 'uf.uf_parent.len = num_vertices', 'forall u. 0 <= u < i_1 -> color[u] = col1[cls u]', 'forall u. i_1 <= u < num_vertices -> color[u] = col1[u]'])})
prop('C31', ['bip_graph', 'bip_uf', 'uf_new', 'uf_find', 'uf_link'], lemmas=['bp_step'], harness='C31.cpp')
