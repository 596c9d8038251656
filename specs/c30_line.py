# line graph and spanning sub-graph
theory('line', r'''
predicate shares (a b: edge) = exists v. incident a v /\ incident b v
(** the first extremity common to two edges, -1 if there is none *)
function common (a b: edge) : int = if a.edge_source = -1 || b.edge_source = -1 then -1 else if a.edge_source = b.edge_source || a.edge_source = b.edge_target then a.edge_source else if a.edge_target = b.edge_source || a.edge_target = b.edge_target then a.edge_target else -1
predicate has_edge (l: vec edge) (x y: int) = exists k. 0 <= k < l.len /\ l[k].edge_source = x /\ l[k].edge_target = y
(** l links, exactly once, the edges sharing an extremity *)
predicate line_of (es l: vec edge) = (forall k. 0 <= k < l.len -> 0 <= l[k].edge_source < l[k].edge_target < es.len /\ shares es[l[k].edge_source] es[l[k].edge_target]) /\
  (forall i j. 0 <= i < j < l.len -> l[i].edge_source <> l[j].edge_source \/ l[i].edge_target <> l[j].edge_target) /\ forall x y. 0 <= x < y < es.len -> shares es[x] es[y] -> has_edge l x y
(** em x y is the index of the edge linking x and y, -1 if there is none; the edges so far link the pairs met before the positions i, j of the list of v *)
predicate seen_before (es: vec edge) (pos: int -> int -> int) (v i j x y: int) = let c = common es[x] es[y] in c <> -1 /\ (c < v \/ (c = v /\ let a = min (pos x v) (pos y v) in a < i \/ (a = i /\ max (pos x v) (pos y v) < j)))
predicate line_inv (es l: vec edge) (em: int -> int -> int) (pos: int -> int -> int) (v i j: int) =
  (forall k. 0 <= k < l.len -> 0 <= l[k].edge_source < l[k].edge_target < es.len /\ em l[k].edge_source l[k].edge_target = k) /\
  (forall x y. 0 <= x < y < es.len -> if seen_before es pos v i j x y then 0 <= em x y < l.len /\ l[em x y].edge_source = x /\ l[em x y].edge_target = y else em x y = -1)
''', deps=['ug'])
lemma('common_is', '(n: int) (es: vec edge)', ['edges_ok n es'], ['forall x y v. 0 <= x < es.len -> 0 <= y < es.len -> incident es[x] v -> incident es[y] v -> common es[x] es[y] <= v /\\ ((es[x].edge_source = es[y].edge_source /\\ es[x].edge_source < v) \\/ common es[x] es[y] = v) /\\ common es[x] es[y] <> -1',
   'forall x y. 0 <= x < es.len -> 0 <= y < es.len -> common es[x] es[y] <> -1 -> incident es[x] (common es[x] es[y]) /\\ incident es[y] (common es[x] es[y]) /\\ shares es[x] es[y]'], use=['line'])
lemma('line_add', '(n: int) (es l: vec edge) (oe: vec (vec int)) (em: int -> int -> int) (pos: int -> int -> int) (v i j x y: int) (l2: vec edge)',
   ['edges_ok n es', 'adj_ok n es oe pos', '0 <= v < n', '0 <= i < j < oe[v].len', 'x = oe[v][i]', 'y = oe[v][j]', 'line_inv es l em pos v i j', 'common es[x] es[y] = v', '0 <= l.len', 'l2.len = l.len + 1', 'forall k. 0 <= k < l.len -> l2[k] = l[k]', 'l2[l.len].edge_source = min x y', 'l2[l.len].edge_target = max x y'],
   ['line_inv es l2 em2 pos v i (j + 1)'],
   body='let ghost em2 = (fun a b -> if a = min x y && b = max x y then l.len else em a b) in common_is n es; assert { x <> y }; assert { common es[y] es[x] = v }; assert { not (seen_before es pos v i j (min x y) (max x y)) }; assert { seen_before es pos v i (j + 1) (min x y) (max x y) }; '
        'assert { forall a b. 0 <= a < b < es.len -> (a <> min x y \\/ b <> max x y) -> (seen_before es pos v i (j + 1) a b <-> seen_before es pos v i j a b) }; em2', ret='(em2: int -> int -> int)', use=['line'], lemmas=['common_is'])
lemma('line_skip', '(n: int) (es l: vec edge) (oe: vec (vec int)) (em: int -> int -> int) (pos: int -> int -> int) (v i j x y: int)',
   ['edges_ok n es', 'adj_ok n es oe pos', '0 <= v < n', '0 <= i < j < oe[v].len', 'x = oe[v][i]', 'y = oe[v][j]', 'line_inv es l em pos v i j', 'common es[x] es[y] <> v'], ['line_inv es l em pos v i (j + 1)'],
   body='common_is n es; assert { forall a b. 0 <= a < b < es.len -> (seen_before es pos v i (j + 1) a b <-> seen_before es pos v i j a b) }', use=['line'], lemmas=['common_is'])
lemma('line_next', '(n: int) (es l: vec edge) (oe: vec (vec int)) (em: int -> int -> int) (pos: int -> int -> int) (v i j: int)',
   ['edges_ok n es', 'adj_ok n es oe pos', '0 <= v < n', '0 <= i < oe[v].len', 'oe[v].len <= j', 'line_inv es l em pos v i j'], ['line_inv es l em pos v (i + 1) (i + 2)'],
   body='common_is n es; assert { forall a b. 0 <= a < b < es.len -> common es[a] es[b] = v -> 0 <= pos a v < oe[v].len /\\ 0 <= pos b v < oe[v].len /\\ pos a v <> pos b v }; assert { forall a b. 0 <= a < b < es.len -> (seen_before es pos v (i + 1) (i + 2) a b <-> seen_before es pos v i j a b) }', use=['line'], lemmas=['common_is'])
lemma('line_nextv', '(n: int) (es l: vec edge) (oe: vec (vec int)) (em: int -> int -> int) (pos: int -> int -> int) (v i j: int)',
   ['edges_ok n es', 'adj_ok n es oe pos', '0 <= v < n', 'oe[v].len <= i', 'line_inv es l em pos v i j'], ['line_inv es l em pos (v + 1) 0 1'],
   body='common_is n es; assert { forall a b. 0 <= a < b < es.len -> common es[a] es[b] = v -> 0 <= pos a v < oe[v].len /\\ 0 <= pos b v < oe[v].len }; assert { forall a b. 0 <= a < b < es.len -> common es[a] es[b] = v + 1 -> 0 <= pos a (v + 1) /\\ 0 <= pos b (v + 1) /\\ pos a (v + 1) <> pos b (v + 1) }; '
        'assert { forall a b. 0 <= a < b < es.len -> (seen_before es pos (v + 1) 0 1 a b <-> seen_before es pos v i j a b) }', use=['line'], lemmas=['common_is'])
lemma('line_end', '(n: int) (es l: vec edge) (em: int -> int -> int) (pos: int -> int -> int)', ['edges_ok n es', 'line_inv es l em pos n 0 1'], ['line_of es l'],
   body='common_is n es; assert { forall x y. 0 <= x < y < es.len -> shares es[x] es[y] -> common es[x] es[y] <> -1 && seen_before es pos n 0 1 x y && has_edge l x y }; assert { forall k. 0 <= k < l.len -> seen_before es pos n 0 1 l[k].edge_source l[k].edge_target }', use=['line'], lemmas=['common_is'])
LI = 'ug_ok lg /\\ lg.ug_num_vertices = %s.len /\\ line_inv %s lg.ug_edges em pos ' % (ES, ES)
fn('hg::line_graph', 'line_graph', use=['line'], lemmas=['common_is', 'line_add', 'line_skip', 'line_next', 'line_nextv', 'line_end'], requires=['ug_ok graph'],
   ensures=[('one vertex per edge', 'ug_ok result /\\ result.ug_num_vertices = %s.len' % ES), ('one edge between two edges sharing an extremity, none otherwise', 'line_of %s result.ug_edges' % ES)],
   at={'entry': ['let ghost pos = any int -> int -> int ensures { adj_ok %s %s graph.ug_out_edges result } in' % (N, ES), 'let ghost ref em = (fun (x y: int) -> -1) in'],
       'loop3.begin': ['let ghost lg0 = lg in', 'let ghost x = (graph.ug_out_edges.elts v).elts i in', 'let ghost y = (graph.ug_out_edges.elts v).elts j in', 'common_is %s %s' % (N, ES)],
       'loop3.end': ['if lg.ug_edges.len > lg0.ug_edges.len then begin let ghost em2 = line_add %s %s lg0.ug_edges graph.ug_out_edges em pos v i (j - 1) x y lg.ug_edges in em <- em2 end else line_skip %s %s lg.ug_edges graph.ug_out_edges em pos v i (j - 1) x y' % (N, ES, N, ES)],
       'loop3.post': ['line_next %s %s lg.ug_edges graph.ug_out_edges em pos v i j' % (N, ES)], 'loop2.post': ['line_nextv %s %s lg.ug_edges graph.ug_out_edges em pos v i (i + 1)' % (N, ES)],
       'return': ['line_end %s %s lg.ug_edges em pos' % (N, ES)]},
   loops={1: dict(inv=['0 <= v_it <= v_end', LI + 'v_it 0 1']), 2: dict(inv=['0 <= i <= n_out', LI + 'v i (i + 1)']), 3: dict(inv=['i + 1 <= j', 'j <= n_out \\/ j = i + 1', LI + 'v i j'])})
fn('hg::subgraph_spanning', 'subgraph', use=['line'], requires=['ug_ok graph', 'forall k. 0 <= k < xedge_indices.len -> 0 <= xedge_indices[k] < {0}.len /\\ live {0}[xedge_indices[k]] {1}'.format(ES, N)],
   ensures=[('same vertices and exactly the listed edges in order', 'ug_ok result /\\ result.ug_num_vertices = {1} /\\ result.ug_edges.len = xedge_indices.len /\\ forall k. 0 <= k < xedge_indices.len -> result.ug_edges[k].edge_source = {0}[xedge_indices[k]].edge_source /\\ result.ug_edges[k].edge_target = {0}[xedge_indices[k]].edge_target'.format(ES, N))],
   loops={1: dict(inv=['0 <= ei_it <= ei_end', 'ug_ok subgraph', 'subgraph.ug_num_vertices = ' + N, 'subgraph.ug_edges.len = ei_it', 'forall k. 0 <= k < ei_it -> subgraph.ug_edges[k].edge_source = {0}[xedge_indices[k]].edge_source /\\ subgraph.ug_edges[k].edge_target = {0}[xedge_indices[k]].edge_target'.format(ES)])})
prop('C30', ['line_graph', 'subgraph'], lemmas=[], harness='C30.cpp')
