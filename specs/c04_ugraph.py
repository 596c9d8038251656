UG = 'hg::undirected_graph_internal::undirected_graph'
short(UG, 'ug'); short('hg::indexed_edge', 'edge')
theory('ug', '''
predicate removed (e: edge) = e.edge_source = -1 /\\ e.edge_target = -1
predicate live (e: edge) (nv: int) = 0 <= e.edge_source <= e.edge_target < nv
predicate incident (e: edge) (v: int) = v <> -1 /\\ (e.edge_source = v \\/ e.edge_target = v)
predicate edges_ok (nv: int) (es: vec edge) =
  0 <= es.len /\\ forall i. 0 <= i < es.len -> es[i].edge_index = i /\\ (removed es[i] \\/ live es[i] nv)
(** the edge list of every vertex lists exactly the incident live edges, each once (a self loop once); pos e v: where e is listed at v *)
predicate adj_ok (nv: int) (es: vec edge) (oe: vec (vec int)) (pos: int -> int -> int) =
  oe.len = nv /\\
  (forall v. 0 <= v < nv -> 0 <= oe[v].len) /\\
  (forall v k. 0 <= v < nv -> 0 <= k < oe[v].len -> 0 <= oe[v][k] < es.len /\\ incident es[oe[v][k]] v /\\ pos oe[v][k] v = k) /\\
  (forall e v. 0 <= e < es.len -> incident es[e] v -> 0 <= pos e v < oe[v].len /\\ oe[v][pos e v] = e)
predicate ug_ok (g: ug) = g.ug_num_vertices = g.ug_out_edges.len /\\ 0 <= g.ug_num_vertices /\\
  edges_ok g.ug_num_vertices g.ug_edges /\\ exists pos. adj_ok g.ug_num_vertices g.ug_edges g.ug_out_edges pos
predicate same_edges_but (a b: vec edge) (i: int) = a.len = b.len /\\ forall j. 0 <= j < a.len -> j <> i -> a[j] = b[j]
''', recs=[UG + '<hg::undirected_graph_internal::vecS>'])
POS = 'let ghost pos = any int -> int -> int ensures { adj_ok this.ug_num_vertices this.ug_edges this.ug_out_edges result } in'
fn(UG + '::undirected_graph', 'ug_new', sig=r'vecS.*const unsigned long', use=['ug'],
   ensures=[('that many vertices, no edge', 'ug_ok result /\\ result.ug_num_vertices = num_vertices /\\ result.ug_edges.len = 0')],
   at={'return': ['assert { adj_ok num_vertices this_edges this_out_edges (fun _ _ -> 0) }']})
fn('hg::add_vertex', 'ug_add_vertex', sig=r'vecS', use=['ug'], requires=['ug_ok g'],
   ensures=[('one vertex more, edges kept', 'ug_ok g /\\ g.ug_num_vertices = (old g).ug_num_vertices + 1 /\\ g.ug_edges = (old g).ug_edges'), ('its index', 'result = (old g).ug_num_vertices'),
            ('edge lists', 'forall v. 0 <= v < (old g).ug_num_vertices -> g.ug_out_edges[v] = (old g).ug_out_edges[v]')],
   at={'entry': [POS.replace('this', 'g')], 'return': ['assert { adj_ok g.ug_num_vertices g.ug_edges g.ug_out_edges pos }']})
fn('hg::add_vertices', 'ug_add_vertices', sig=r'vecS', use=['ug'], requires=['ug_ok g'],
   ensures=[('that many vertices more, edges kept', 'ug_ok g /\\ g.ug_num_vertices = (old g).ug_num_vertices + num /\\ g.ug_edges = (old g).ug_edges'),
            ('edge lists', 'forall v. 0 <= v < (old g).ug_num_vertices -> g.ug_out_edges[v] = (old g).ug_out_edges[v]')],
   at={'entry': [POS.replace('this', 'g')], 'return': ['assert { adj_ok g.ug_num_vertices g.ug_edges g.ug_out_edges pos }']})
fn(UG + '::add_edge', 'ug_add_edge_', sig=r'vecS.*\(long; long', use=['ug'], requires=['ug_ok this', '0 <= v1 < this.ug_num_vertices', '0 <= v2 < this.ug_num_vertices'],
   ensures=[('one edge more, with the next index and ordered extremities', 'ug_ok this /\\ this.ug_num_vertices = (old this).ug_num_vertices /\\ this.ug_edges.len = (old this).ug_edges.len + 1 /\\ '
             'let e = this.ug_edges[(old this).ug_edges.len] in e.edge_source = min v1 v2 /\\ e.edge_target = max v1 v2 /\\ e.edge_index = (old this).ug_edges.len /\\ result = e'),
            ('other edges kept', 'forall j. 0 <= j < (old this).ug_edges.len -> this.ug_edges[j] = (old this).ug_edges[j]')],
   at={'entry': ['let ghost g0 = this in', 'let ghost a = min v1 v2 in', 'let ghost b = max v1 v2 in', POS],
       'return': ['assert { adj_ok this.ug_num_vertices this.ug_edges this.ug_out_edges (fun e v -> if e = g0.ug_edges.len then g0.ug_out_edges[v].len else pos e v) }']})
fn(UG + '::remove_edge', 'ug_remove_edge_', sig=r'vecS', use=['ug'], requires=['ug_ok this', '0 <= ei < this.ug_edges.len'],
   ensures=[('the edge is removed, its index stays reserved', 'ug_ok this /\\ this.ug_num_vertices = (old this).ug_num_vertices /\\ same_edges_but this.ug_edges (old this).ug_edges ei /\\ removed this.ug_edges[ei]')],
   at={'entry': ['let ghost g0 = this in', 'let ghost s0 = this.ug_edges[ei].edge_source in', 'let ghost t0 = this.ug_edges[ei].edge_target in', POS],
       'return': ['assert { s0 <> -1 -> adj_ok this.ug_num_vertices this.ug_edges this.ug_out_edges (fun e v -> if (v = s0 \\/ v = t0) /\\ pos e v > pos ei v then pos e v - 1 else pos e v) }']})
fn(UG + '::set_edge', 'ug_set_edge_', sig=r'vecS', use=['ug'], requires=['ug_ok this', '0 <= ei < this.ug_edges.len', '0 <= v1 < this.ug_num_vertices', '0 <= v2 < this.ug_num_vertices'],
   ensures=[('the edge gets its new extremities', 'ug_ok this /\\ this.ug_num_vertices = (old this).ug_num_vertices /\\ same_edges_but this.ug_edges (old this).ug_edges ei /\\ '
             'this.ug_edges[ei].edge_source = min v1 v2 /\\ this.ug_edges[ei].edge_target = max v1 v2 /\\ this.ug_edges[ei].edge_index = ei')],
   at={'call:ug_remove_edge_': ['let ghost g1 = this in', POS],
       'return': ['assert { adj_ok this.ug_num_vertices this.ug_edges this.ug_out_edges (fun e v -> if e = ei then g1.ug_out_edges[v].len else pos e v) }']})
G_OK = ['ug_ok g']; LIST = 'let l = g.ug_out_edges[v] in result.len = l.len /\\ forall k. 0 <= k < l.len -> '
OTHER = '(if g.ug_edges[l[k]].edge_source = v then g.ug_edges[l[k]].edge_target else g.ug_edges[l[k]].edge_source)'
def _gvisit(w, q, what, el, it='e'):
    fn('hg::hgv::' + q, w, use=['ug'], requires=G_OK + ['0 <= v < g.ug_num_vertices'], ensures=[(what, LIST + el('result'))],
       loops={1: dict(inv=['0 <= %s_it <= %s_end' % (it, it), 'o.len = %s_it' % it, 'let l = g.ug_out_edges[v] in forall k. 0 <= k < %s_it -> ' % it + el('o')])})
_gvisit('visit_out_edges', 'visit_out_edges', 'the incident edges as edges leaving v', lambda R: R + '[k].fst = l[k] /\\ ' + R + '[k].snd = ' + OTHER)
_gvisit('visit_in_edges', 'visit_in_edges', 'the incident edges as edges entering v', lambda R: R + '[k].fst = l[k] /\\ ' + R + '[k].snd = ' + OTHER)
_gvisit('visit_adjacent', 'visit_adjacent', 'the other extremity of every incident edge', lambda R: R + '[k] = ' + OTHER, 'u')
fn('hg::hgv::visit_edges', 'visit_edges', use=['ug'], requires=G_OK, ensures=[('every edge index once', 'result.len = g.ug_edges.len /\\ forall k. 0 <= k < result.len -> result[k].fst = g.ug_edges[k].edge_source /\\ result[k].snd = g.ug_edges[k].edge_target')],
   loops={1: dict(inv=['0 <= e_it <= e_end', 'o.len = e_it', 'forall k. 0 <= k < e_it -> o[k].fst = g.ug_edges[k].edge_source /\\ o[k].snd = g.ug_edges[k].edge_target'])})
fn('hg::hgv::visit_vertices', 'visit_vertices', use=['ug'], requires=G_OK, ensures=[('every vertex once', 'result.len = g.ug_num_vertices /\\ forall k. 0 <= k < result.len -> result[k] = k')],
   loops={1: dict(inv=['0 <= u_it <= u_end', 'o.len = u_it', 'forall k. 0 <= k < u_it -> o[k] = k'])})
for w in ('sources', 'targets'):
    fn('hg::hgv::all_' + w, 'all_' + w, use=['ug'], requires=G_OK, ensures=[(w, 'result.len = g.ug_edges.len /\\ forall k. 0 <= k < result.len -> result[k] = g.ug_edges[k].edge_' + w[:-1])])
fn('hg::degree', 'ug_degree', sig=r'\(long; const hg::undirected_graph_internal::undirected_graph<hg::undirected_graph_internal::vecS', use=['ug'], requires=G_OK + ['0 <= v < g.ug_num_vertices'], ensures=[('number of listed edges', 'result = g.ug_out_edges[v].len')])
fn('hg::degree', 'ug_degree_arr', sig=r'xexpression<.*undirected_graph', use=['ug'], requires=G_OK + ['forall i. 0 <= i < xindex.len -> 0 <= xindex[i] < g.ug_num_vertices'],
   ensures=[('number of listed edges of every vertex', 'result.len = xindex.len /\\ forall k. 0 <= k < result.len -> result[k] = g.ug_out_edges[xindex[k]].len')],
   loops={1: dict(inv=['0 <= i <= res.len', 'forall k. 0 <= k < i -> res[k] = g.ug_out_edges[xindex[k]].len'])})
fn('hg::add_edge', 'ug_add_edge', sig=r'vecS', use=['ug'], requires=G_OK + ['0 <= v1 < g.ug_num_vertices', '0 <= v2 < g.ug_num_vertices'],
   ensures=[('one edge more', 'ug_ok g /\\ g.ug_num_vertices = (old g).ug_num_vertices /\\ g.ug_edges.len = (old g).ug_edges.len + 1 /\\ result.edge_index = (old g).ug_edges.len /\\ result = g.ug_edges[(old g).ug_edges.len] /\\ result.edge_source = min v1 v2 /\\ result.edge_target = max v1 v2'),
            ('other edges kept', 'forall j. 0 <= j < (old g).ug_edges.len -> g.ug_edges[j] = (old g).ug_edges[j]')])
fn('hg::remove_edge', 'ug_remove_edge', sig=r'vecS', use=['ug'], requires=G_OK + ['0 <= ei < g.ug_edges.len'],
   ensures=[('removed', 'ug_ok g /\\ g.ug_num_vertices = (old g).ug_num_vertices /\\ same_edges_but g.ug_edges (old g).ug_edges ei /\\ removed g.ug_edges[ei]')])
fn('hg::set_edge', 'ug_set_edge', sig=r'vecS', use=['ug'], requires=G_OK + ['0 <= ei < g.ug_edges.len', '0 <= v1 < g.ug_num_vertices', '0 <= v2 < g.ug_num_vertices'],
   ensures=[('re-targeted', 'ug_ok g /\\ g.ug_num_vertices = (old g).ug_num_vertices /\\ same_edges_but g.ug_edges (old g).ug_edges ei /\\ let e = g.ug_edges[ei] in e.edge_source = min v1 v2 /\\ e.edge_target = max v1 v2')])
fn('hg::add_edges', 'ug_add_edges', sig=r'vecS', use=['ug'], requires=G_OK + ['xsources.len = xtargets.len', 'forall i. 0 <= i < xsources.len -> 0 <= xsources[i] < g.ug_num_vertices /\\ 0 <= xtargets[i] < g.ug_num_vertices'],
   ensures=[('one edge more per pair, in order', 'ug_ok g /\\ g.ug_num_vertices = (old g).ug_num_vertices /\\ g.ug_edges.len = (old g).ug_edges.len + xsources.len /\\ (forall j. 0 <= j < (old g).ug_edges.len -> g.ug_edges[j] = (old g).ug_edges[j]) /\\ '
             'forall j. 0 <= j < xsources.len -> let e = g.ug_edges[(old g).ug_edges.len + j] in e.edge_source = min xsources[j] xtargets[j] /\\ e.edge_target = max xsources[j] xtargets[j]')],
   at={'entry': ['let ghost g0 = g in']},
   loops={1: dict(inv=['0 <= i <= xsources.len', 'ug_ok g', 'g.ug_num_vertices = g0.ug_num_vertices', 'g.ug_edges.len = g0.ug_edges.len + i', 'forall j. 0 <= j < g0.ug_edges.len -> g.ug_edges[j] = g0.ug_edges[j]',
     'forall j. 0 <= j < i -> let e = g.ug_edges[g0.ug_edges.len + j] in e.edge_source = min xsources[j] xtargets[j] /\\ e.edge_target = max xsources[j] xtargets[j]'])})
prop('C04', ['ug_new', 'ug_add_vertex', 'ug_add_vertices', 'ug_add_edge_', 'ug_remove_edge_', 'ug_set_edge_', 'ug_add_edge', 'ug_remove_edge', 'ug_set_edge', 'ug_add_edges', 'visit_out_edges', 'visit_in_edges', 'visit_adjacent', 'visit_edges', 'visit_vertices',
     'all_sources', 'all_targets', 'ug_degree', 'ug_degree_arr'], harness='C04.cpp', bounded=['hg::undirected_graph<hash_setS> (std::unordered_set storage)'])
