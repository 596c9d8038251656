# graph cuts and vertex labelisations
theory('comps', r'''
(** a and b are linked by the edges satisfying k: no labelling constant along these edges separates them *)
predicate klinked (es: vec edge) (k: int -> bool) (a b: int) = forall f: int -> int. (forall e. 0 <= e < es.len -> k e -> joins es f e) -> f a = f b
let rec ghost function nfree (l: int -> int) (n: int) : int variant { n } = if n <= 0 then 0 else nfree l (n - 1) + (if l (n - 1) = -1 then 1 else 0)
predicate half (l: int -> int) (st: vec int) (cv a b: int) = l a = -1 \/ occurs st a \/ a = cv \/ l b = l a
(** labelled vertices that are neither on the stack nor being visited have the label of their neighbours *)
predicate closed (es: vec edge) (k: int -> bool) (l: int -> int) (st: vec int) (cv: int) = forall e. 0 <= e < es.len -> k e -> half l st cv es[e].edge_source es[e].edge_target /\ half l st cv es[e].edge_target es[e].edge_source
(** labels in use are those of [lo, hi[, each with a representative to which its vertices are linked *)
predicate reps (es: vec edge) (k: int -> bool) (l: int -> int) (rep: int -> int) (n lo hi: int) =
  (forall v. 0 <= v < n -> l v = -1 \/ (lo <= l v < hi /\ klinked es k (rep (l v)) v)) /\ forall x. lo <= x < hi -> 0 <= rep x < n /\ l (rep x) = x
(** l is the labelling of the connected components of the edges satisfying k, with the labels lo, ..., hi - 1 *)
predicate comp_labels (es: vec edge) (k: int -> bool) (l: vec int) (n lo hi: int) =
  (forall v. 0 <= v < n -> lo <= l[v] < hi) /\ (forall x. lo <= x < hi -> occurs l x) /\ forall a b. 0 <= a < n -> 0 <= b < n -> (l[a] = l[b] <-> klinked es k a b)
predicate comp_labelling (es: vec edge) (k: int -> bool) (l: vec int) (n lo: int) = exists hi. lo <= hi /\ comp_labels es k l n lo hi
''', deps=['kruskal'])
lemma('nfree_ge', '(l: int -> int) (n: int)', [], ['nfree l n >= 0'], body='if n > 0 then nfree_ge l (n - 1)', rec=True, variant='if n < 0 then 0 else n', use=['comps'])
lemma('nfree_eq', '(l: int -> int) (n: int)', [], ['forall l2: int -> int. (forall i. 0 <= i < n -> l2 i = l i) -> nfree l2 n = nfree l n'], body='if n > 0 then nfree_eq l (n - 1)', rec=True, variant='if n < 0 then 0 else n', use=['comps'])
lemma('nfree_set', '(l l2: int -> int) (n i: int)', ['0 <= i < n', 'l i = -1', 'l2 i <> -1', 'forall j. 0 <= j < n -> j <> i -> l2 j = l j'], ['nfree l2 n = nfree l n - 1'], body='if i < n - 1 then nfree_set l l2 (n - 1) i else nfree_eq l (n - 1)', rec=True, variant='if n < 0 then 0 else n', use=['comps'], lemmas=['nfree_eq'])
lemma('comps_end', '(es: vec edge) (k: int -> bool) (l st: vec int) (rep: int -> int) (n lo hi: int)', ['closed es k l.elts st (-1)', 'st.len = 0', 'reps es k l.elts rep n lo hi', 'live_edges es n', 'l.len = n', 'forall v. 0 <= v < n -> l[v] <> -1'], ['comp_labels es k l n lo hi'],
      body='assert { forall e. 0 <= e < es.len -> k e -> joins es l.elts e }; assert { forall a b. 0 <= a < n -> 0 <= b < n -> klinked es k a b -> l[a] = l[b] }; assert { forall x. lo <= x < hi -> l[rep x] = x && occurs l x }; '
           'assert { forall a b. 0 <= a < n -> 0 <= b < n -> l[a] = l[b] -> klinked es k (rep l[a]) a && klinked es k (rep l[a]) b && klinked es k a b }', use=['comps'])
lemma('klinked_step', '(es: vec edge) (k: int -> bool) (r a b e: int)', ['klinked es k r a', '0 <= e < es.len', 'k e', '(es[e].edge_source = a /\\ es[e].edge_target = b) \\/ (es[e].edge_source = b /\\ es[e].edge_target = a)'], ['klinked es k r b'], use=['comps'])
lemma('closed_push', '(es: vec edge) (k: int -> bool) (l l2: int -> int) (st st2: vec int) (cv n: int)', ['closed es k l st cv', 'l n = -1', 'forall v. v <> n -> l2 v = l v', '0 <= st.len', 'st2.len = st.len + 1', 'st2[st.len] = n', 'forall i. 0 <= i < st.len -> st2[i] = st[i]'], ['closed es k l2 st2 cv'],
      body='assert { occurs st2 n }; assert { forall a. occurs st a -> occurs st2 a }; assert { forall a b. half l st cv a b -> half l2 st2 cv a b }', use=['comps'])
fn('hg::labelisation_2_graph_cut', 'lab2cut', sig='vecS', use=['kruskal'], requires=['ug_ok graph', 'live_edges %s %s' % (ES, N), 'xvertex_labels.len = ' + N],
   ensures=[('non zero exactly on the edges whose extremities have different labels', 'result.len = {0}.len /\\ forall e. 0 <= e < {0}.len -> (result[e] = 0 <-> xvertex_labels[{0}[e].edge_source] = xvertex_labels[{0}[e].edge_target])'.format(ES))],
   loops={1: dict(inv=['0 <= i <= result_.len', 'forall e. 0 <= e < i -> (result_[e] = 0 <-> xvertex_labels[{0}[e].edge_source] = xvertex_labels[{0}[e].edge_target])'.format(ES)])})
KZ = '(fun e -> xedge_weights[e] = 0.0)'
LST = lambda lo, st: ['0 <= stack.len', 'labels.len = ' + N, 'forall k. 0 <= k < stack.len -> 0 <= stack[k] < %s /\\ labels[stack[k]] = current_label' % N, 'reps %s kz labels.elts rep %s 1 (current_label + 1)' % (ES, N)]
fn('hg::graph_cut_2_labelisation', 'cut2lab', sig='vecS', use=['comps'], lemmas=['comps_end', 'nfree_set', 'nfree_ge', 'klinked_step', 'closed_push'], requires=['ug_ok graph', 'live_edges %s %s' % (ES, N), 'xedge_weights.len = %s.len' % ES],
   ensures=[('consecutive positive labels of the connected components of the edges of zero cut value', 'result.len = {1} /\\ comp_labelling {0} {2} result {1} 1'.format(ES, N, KZ))],
   at={'entry': ['let ghost kz = pure { %s } in' % KZ, 'let ghost ref rep = (fun (x: int) -> 0) in', 'let ghost pos = any int -> int -> int ensures { adj_ok %s %s graph.ug_out_edges result } in' % (N, ES)],
       'loop1.begin': ['if labels.elts v_it = -1 then rep <- pure { Map.set rep (current_label + 1) v_it }'],
       'loop2.pre': ['assert { klinked %s kz v v }' % ES, 'nfree_ge labels.elts ' + N], 'loop2.begin': ['let ghost st0 = stack in', 'nfree_ge labels.elts ' + N],
       'loop2.end': ['nfree_ge labels.elts ' + N],
       'loop3.pre': ['assert { forall a. occurs st0 a -> a = cv \\/ occurs stack a }'],
       'loop3.begin': ['let ghost lab0 = labels in', 'let ghost sta = stack in', 'let ghost ee = (graph.ug_out_edges.elts cv).elts e_it in', 'assert { 0 <= ee < %s.len /\\ %s[ee].edge_index = ee /\\ incident %s[ee] cv }' % (ES, ES, ES)],
       'loop3.end': ['if labels.elts e.edge_target <> lab0.elts e.edge_target then begin closed_push %s kz lab0.elts labels.elts sta stack cv e.edge_target; nfree_set lab0.elts labels.elts %s e.edge_target; klinked_step %s kz (rep current_label) cv e.edge_target ee end' % (ES, N, ES)],
       'return': ['comps_end %s kz labels stack rep %s 1 (current_label + 1)' % (ES, N), 'assert { comp_labels %s kz labels %s 1 (current_label + 1) }' % (ES, N)]},
   loops={1: dict(inv=['0 <= v_it <= v_end', '0 <= current_label'] + LST(0, 0) + ['stack.len = 0', 'forall u. 0 <= u < v_it -> labels[u] <> -1', 'closed %s kz labels.elts stack (-1)' % ES]),
          2: dict(inv=LST(0, 0) + ['forall u. 0 <= u <= v_it -> labels[u] <> -1', 'closed %s kz labels.elts stack (-1)' % ES], var='nfree labels.elts %s + nfree labels.elts %s + stack.len' % (N, N)),
          3: dict(inv=['0 <= e_it <= e_end'] + LST(0, 0) + ['forall u. 0 <= u <= v_it -> labels[u] <> -1', 'closed %s kz labels.elts stack cv' % ES, 'labels[cv] = current_label', 'nfree labels.elts {0} + nfree labels.elts {0} + stack.len <= nfree labels_at3.elts {0} + nfree labels_at3.elts {0} + stack_at3.len'.format(N),
                       'forall j. 0 <= j < e_it -> let x = graph.ug_out_edges[cv][j] in kz x -> labels[{0}[x].edge_source] = current_label /\\ labels[{0}[x].edge_target] = current_label'.format(ES)])})
prop('C15', ['cut2lab', 'lab2cut'], lemmas=[], harness='C15.cpp')
