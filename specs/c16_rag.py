# region adjacency graphs
theory('rag', r'''
predicate done_ (l: int -> int) (st: vec int) (cv a: int) = l a <> -1 /\ not (occurs st a) /\ a <> cv
(** an edge between different regions whose extremities are both visited has its edge *)
predicate mapped (es: vec edge) (k: int -> bool) (l: int -> int) (st em: vec int) (cv: int) = forall e. 0 <= e < es.len -> not (k e) -> done_ l st cv es[e].edge_source -> done_ l st cv es[e].edge_target -> em[e] <> -1
predicate edge_of (es: vec edge) (k: int -> bool) (l: int -> int) (rs: vec edge) (e j: int) = 0 <= j < rs.len /\ not (k e) /\ l es[e].edge_source <> -1 /\ l es[e].edge_target <> -1 /\
  rs[j].edge_source = min (l es[e].edge_source) (l es[e].edge_target) /\ rs[j].edge_target = max (l es[e].edge_source) (l es[e].edge_target)
(** em maps the edges to the edges rs between the regions 0, ..., cur, those from lo on leading to region cur; re j: an edge mapped to j *)
predicate rag_inv (es: vec edge) (k: int -> bool) (l: int -> int) (em: vec int) (rs: vec edge) (re: int -> int) (can: vec int) (lo cur: int) =
  (forall j. 0 <= j < rs.len -> 0 <= rs[j].edge_source < rs[j].edge_target <= cur /\ 0 <= re j < es.len /\ em[re j] = j) /\
  (forall j. 0 <= j < lo -> rs[j].edge_target < cur) /\ (forall j. lo <= j < rs.len -> rs[j].edge_target = cur /\ can[rs[j].edge_source] = j) /\
  (forall r. 0 <= r <= cur -> -1 <= can[r] < rs.len /\ (can[r] >= lo -> rs[can[r]].edge_source = r)) /\
  (forall i j. 0 <= i < j < rs.len -> rs[i].edge_source <> rs[j].edge_source \/ rs[i].edge_target <> rs[j].edge_target) /\
  em.len = es.len /\ 0 <= lo <= rs.len /\ forall e. 0 <= e < es.len -> em[e] = -1 \/ edge_of es k l rs e em[e]
(** exactly one edge between the regions that some edge links, none otherwise, the edge map leading to it *)
predicate rag_of (es: vec edge) (k: int -> bool) (l em: vec int) (rs: vec edge) =
  em.len = es.len /\ (forall i j. 0 <= i < j < rs.len -> rs[i].edge_source <> rs[j].edge_source \/ rs[i].edge_target <> rs[j].edge_target) /\
  (forall e. 0 <= e < es.len -> if l[es[e].edge_source] = l[es[e].edge_target] then em[e] = -1 else edge_of es k l.elts rs e em[e]) /\
  forall j. 0 <= j < rs.len -> rs[j].edge_source < rs[j].edge_target /\ occurs em j
''', deps=['comps'])
RS = '(es: vec edge) (k: int -> bool) (l: int -> int) (em: vec int) (rs: vec edge) (re: int -> int) (can: vec int) (lo cur: int)'
lemma('rag_start', RS + ' (l2: int -> int) (can2: vec int)', ['rag_inv es k l em rs re can lo (cur - 1)', 'forall v. l v <> -1 -> l2 v = l v', 'can2[cur] = -1', 'forall r. 0 <= r < cur -> can2[r] = can[r]', '0 <= cur'], ['rag_inv es k l2 em rs re can2 rs.len cur'], use=['rag'])
lemma('rag_label', RS + ' (l2: int -> int)', ['rag_inv es k l em rs re can lo cur', 'forall v. l v <> -1 -> l2 v = l v'], ['rag_inv es k l2 em rs re can lo cur'], use=['rag'])
lemma('rag_old', RS + ' (em2: vec int) (e: int)', ['rag_inv es k l em rs re can lo cur', '0 <= e < es.len', 'edge_of es k l rs e em2[e]', 'em2.len = em.len', 'forall f. 0 <= f < es.len -> f <> e -> em2[f] = em[f]'], ['rag_inv es k l em2 rs re can lo cur'],
      body='assert { em[e] <> -1 -> em[e] = em2[e] }', use=['rag'])
lemma('rag_new', RS + ' (em2: vec int) (rs2: vec edge) (can2: vec int) (e r: int)', ['rag_inv es k l em rs re can lo cur', '0 <= e < es.len', '0 <= r < cur', 'can[r] < lo', 'edge_of es k l rs2 e rs.len', 'rs2.len = rs.len + 1', 'rs2[rs.len].edge_source = r', 'rs2[rs.len].edge_target = cur',
       'forall j. 0 <= j < rs.len -> rs2[j] = rs[j]', 'em2[e] = rs.len', 'em2.len = em.len', 'forall f. 0 <= f < es.len -> f <> e -> em2[f] = em[f]', 'can2[r] = rs.len', 'forall q. q <> r -> can2[q] = can[q]'], ['rag_inv es k l em2 rs2 re2 can2 lo cur'],
      body='assert { em[e] = -1 }; assert { forall f. 0 <= f < es.len -> em2[f] = -1 \\/ edge_of es k l rs2 f em2[f] }; let ghost re2 = pure { Map.set re rs.len e } in re2', ret='(re2: int -> int)', use=['rag'])
lemma('rag_end', RS + ' (lv st: vec int) (n: int)', ['rag_inv es k lv.elts em rs re can lo cur', 'comp_labels es k lv n 0 (cur + 1)', 'mapped es k lv.elts st em (-1)', 'st.len = 0', 'live_edges es n', 'forall e. 0 <= e < es.len -> not (k e) -> lv[es[e].edge_source] <> lv[es[e].edge_target]'], ['rag_of es k lv em rs'],
      body='assert { forall e. 0 <= e < es.len -> k e -> lv[es[e].edge_source] = lv[es[e].edge_target] }; assert { forall j. 0 <= j < rs.len -> em[re j] = j && occurs em j }; '
           'assert { forall e. 0 <= e < es.len -> not (k e) -> done_ lv.elts st (-1) es[e].edge_source && done_ lv.elts st (-1) es[e].edge_target && em[e] <> -1 }', use=['rag'])
lemma('mapped_push', '(es: vec edge) (k: int -> bool) (l l2: int -> int) (st st2 em: vec int) (cv n: int)', ['mapped es k l st em cv', 'l n = -1', 'forall v. v <> n -> l2 v = l v', '0 <= st.len', 'st2.len = st.len + 1', 'st2[st.len] = n', 'forall i. 0 <= i < st.len -> st2[i] = st[i]'], ['mapped es k l2 st2 em cv'],
      body='assert { occurs st2 n }; assert { forall a. occurs st a -> occurs st2 a }; assert { forall a. done_ l2 st2 cv a -> done_ l st cv a }', use=['rag'])
ADJ = ['adj_ok n es oe pos', '0 <= v < n', 'l v = c', 'c <> -1', '''forall j. 0 <= j < oe[v].len -> let x = oe[v][j] in if k x then l es[x].edge_source = c /\\ l es[x].edge_target = c else l es[x].edge_source = -1 \\/ l es[x].edge_target = -1 \\/ em[x] <> -1''']
lemma('closed_done', '(n: int) (es: vec edge) (oe: vec (vec int)) (pos: int -> int -> int) (k: int -> bool) (l: int -> int) (st em: vec int) (v c: int)', ADJ + ['live_edges es n', 'closed es k l st v'], ['closed es k l st (-1)'],
      body='assert { forall e. 0 <= e < es.len -> incident es[e] v -> k e -> l es[e].edge_source = c /\\ l es[e].edge_target = c }; assert { forall e. 0 <= e < es.len -> k e -> half l st v es[e].edge_source es[e].edge_target -> half l st (-1) es[e].edge_source es[e].edge_target }; '
           'assert { forall e. 0 <= e < es.len -> k e -> half l st v es[e].edge_target es[e].edge_source -> half l st (-1) es[e].edge_target es[e].edge_source }', use=['rag'])
lemma('mapped_done', '(n: int) (es: vec edge) (oe: vec (vec int)) (pos: int -> int -> int) (k: int -> bool) (l: int -> int) (st em: vec int) (v c: int)', ADJ + ['live_edges es n', 'mapped es k l st em v'], ['mapped es k l st em (-1)'],
      body='assert { forall e. 0 <= e < es.len -> incident es[e] v -> not (k e) -> l es[e].edge_source = -1 \\/ l es[e].edge_target = -1 \\/ em[e] <> -1 }', use=['rag'])
KL = '(fun e -> xvertex_labels[{0}[e].edge_source] = xvertex_labels[{0}[e].edge_target])'.format(ES)
RV = 'rag_inv %s kz vertex_map.elts edge_map rag.ug_edges re canonical_edge_indexes ' % ES
RI = lambda cur, lo: ['vertex_map.len = ' + N, '0 <= s.len', 'ug_ok rag', 'rag.ug_num_vertices = %s + 1' % cur, 'rag.ug_edges.len = num_edges', 'canonical_edge_indexes.len = %s + 1' % cur, '0 <= num_regions',
   'reps %s kz vertex_map.elts rep %s 0 (%s + 1)' % (ES, N, cur), RV + '%s (%s)' % (lo, cur)]
RJ = ['forall j. 0 <= j < s.len -> 0 <= s[j] < %s /\\ vertex_map[s[j]] = num_regions' % N, 'forall v. 0 <= v < %s -> vertex_map[v] = num_regions -> xvertex_labels[v] = label_region' % N, 'forall u. 0 <= u <= v_it -> vertex_map[u] <> -1']
CL = lambda cv: ['closed %s kz vertex_map.elts s %s' % (ES, cv), 'mapped %s kz vertex_map.elts s edge_map %s' % (ES, cv)]
fn('hg::make_region_adjacency_graph_from_labelisation', 'rag_lab', sig='vecS', use=['rag'], lemmas=['comps_end', 'nfree_set', 'nfree_ge', 'klinked_step', 'closed_push', 'rag_start', 'rag_label', 'rag_old', 'rag_new', 'rag_end', 'mapped_push', 'closed_done', 'mapped_done'],
   requires=['ug_ok graph', 'live_edges %s %s' % (ES, N), 'xvertex_labels.len = ' + N],
   ensures=[('one vertex per connected component of equally labelled vertices', 'let r = result.region_adjacency_graph_rag in ug_ok r /\\ result.region_adjacency_graph_vertex_map.len = {1} /\\ comp_labels {0} {2} result.region_adjacency_graph_vertex_map {1} 0 r.ug_num_vertices'.format(ES, N, KL)),
            ('exactly one edge between linked components, none otherwise', 'rag_of %s %s result.region_adjacency_graph_vertex_map result.region_adjacency_graph_edge_map result.region_adjacency_graph_rag.ug_edges' % (ES, KL))],
   at={'entry': ['let ghost kz = pure { %s } in' % KL, 'let ghost ref rep = (fun (x: int) -> 0) in', 'let ghost ref re = (fun (x: int) -> 0) in', 'let ghost ref glo = 0 in', 'let ghost pos = any int -> int -> int ensures { adj_ok %s %s graph.ug_out_edges result } in' % (N, ES)],
       'loop1.begin': ['let ghost vm1 = vertex_map in', 'let ghost can1 = canonical_edge_indexes in', 'let ghost cur1 = num_regions - 1 in', 'let ghost lo1 = glo in', 'if vertex_map.elts v_it = -1 then rep <- pure { Map.set rep num_regions v_it }'],
       'loop2.pre': ['glo <- num_edges', 'assert { klinked %s kz v v }' % ES, 'nfree_ge vertex_map.elts ' + N, 'rag_start %s kz vm1.elts edge_map rag.ug_edges re can1 lo1 num_regions vertex_map.elts canonical_edge_indexes' % ES],
       'loop2.begin': ['let ghost st0 = s in', 'nfree_ge vertex_map.elts ' + N], 'loop2.end': ['nfree_ge vertex_map.elts ' + N],
       'loop3.pre': ['assert { forall a. occurs st0 a -> a = v_1 \\/ occurs s a }'],
       'loop3.post': ['%s_done %s %s graph.ug_out_edges pos kz vertex_map.elts s edge_map v_1 num_regions' % (x, N, ES) for x in ('closed', 'mapped')],
       'loop3.begin': ['let ghost vm0 = vertex_map in', 'let ghost st3 = s in', 'let ghost em0 = edge_map in', 'let ghost rs0 = rag.ug_edges in', 'let ghost can0 = canonical_edge_indexes in', 'let ghost ee = (graph.ug_out_edges.elts v_1).elts e_it in', 'assert { 0 <= ee < %s.len /\\ %s[ee].edge_index = ee /\\ incident %s[ee] v_1 }' % (ES, ES, ES)],
       'loop3.end': [('if vertex_map.elts adjv <> vm0.elts adjv then begin closed_push ES kz vm0.elts vertex_map.elts st3 s v_1 adjv; mapped_push ES kz vm0.elts vertex_map.elts st3 s edge_map v_1 adjv; nfree_set vm0.elts vertex_map.elts NN adjv; klinked_step ES kz (rep num_regions) v_1 adjv ee; rag_label ES kz vm0.elts edge_map rag.ug_edges re canonical_edge_indexes lowest_edge num_regions vertex_map.elts end '
                      'else if rag.ug_edges.len > rs0.len then begin assert { edge_of ES kz vertex_map.elts rag.ug_edges ee rs0.len }; let ghost re2 = rag_new ES kz vertex_map.elts em0 rs0 re can0 lowest_edge num_regions edge_map rag.ug_edges canonical_edge_indexes ee (vertex_map.elts adjv) in re <- re2 end '
                      'else if pure { not (kz ee) /\\ vertex_map[adjv] <> -1 } then begin assert { edge_of ES kz vertex_map.elts rag.ug_edges ee edge_map[ee] }; rag_old ES kz vertex_map.elts em0 rag.ug_edges re canonical_edge_indexes lowest_edge num_regions edge_map ee end').replace('ES', ES).replace('NN', N)],
       'return': ['comps_end %s kz vertex_map s rep %s 0 num_regions' % (ES, N), 'rag_end %s kz vertex_map.elts edge_map rag.ug_edges re canonical_edge_indexes glo (num_regions - 1) vertex_map s %s' % (ES, N)]},
   loops={1: dict(inv=['0 <= v_it <= v_end'] + RI('(num_regions - 1)', 'glo') + ['s.len = 0', 'forall u. 0 <= u < v_it -> vertex_map[u] <> -1'] + CL('(-1)')),
          2: dict(inv=['glo = lowest_edge'] + RI('num_regions', 'lowest_edge') + RJ + CL('(-1)'), var='nfree vertex_map.elts {0} + nfree vertex_map.elts {0} + s.len'.format(N)),
          3: dict(inv=['0 <= e_it <= e_end'] + ['glo = lowest_edge'] + RI('num_regions', 'lowest_edge') + RJ + CL('v_1') + ['vertex_map[v_1] = num_regions', 'nfree vertex_map.elts {0} + nfree vertex_map.elts {0} + s.len <= nfree vertex_map_at3.elts {0} + nfree vertex_map_at3.elts {0} + s_at3.len'.format(N),
                       'forall j. 0 <= j < e_it -> let x = graph.ug_out_edges[v_1][j] in if kz x then vertex_map[{0}[x].edge_source] = num_regions /\\ vertex_map[{0}[x].edge_target] = num_regions else vertex_map[{0}[x].edge_source] = -1 \\/ vertex_map[{0}[x].edge_target] = -1 \\/ edge_map[x] <> -1'.format(ES)])})
fn('hg::rag_internal::rag_back_project_weights', 'rag_back', requires=['forall i. 0 <= i < rag_map.len -> -1 <= rag_map[i] < xrag_weights.len'],
   ensures=[('projected weights', 'result.len = rag_map.len /\\ forall i. 0 <= i < rag_map.len -> result[i] = (if rag_map[i] = -1 then 0.0 else xrag_weights[rag_map[i]])')],
   loops={1: dict(inv=['0 <= i <= numv', 'weights.len = rag_map.len', 'forall j. 0 <= j < rag_map.len -> weights[j] = (if j >= i || rag_map[j] = -1 then 0.0 else xrag_weights[rag_map[j]])'])})
prop('C16', ['rag_lab', 'rag_back'], lemmas=[], harness='C16.cpp', bounded=['back projection of vector valued data (the <true> instance of rag_back_project_weights): harness, random graphs of at most 30 vertices'])
