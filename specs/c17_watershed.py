# seeded watershed: a minimum spanning forest rooted in the seeds
theory('sws', """
(** a and b are linked by edges of weight at most lam, without leaving a region of lab *)
predicate inside (es: vec edge) (w: vec real) (lam: real) (lab: vec int) (a b: int) = forall f: int -> int. (forall e. 0 <= e < es.len -> w[e] <=. lam -> lab[es[e].edge_source] = lab[es[e].edge_target] -> joins es f e) -> f a = f b
predicate seed (sd: vec int) (bg t: int) = 0 <= t < sd.len /\\ sd[t] <> bg
(** s is a seed of the label of v, at least as close to v as any other seed, along a path inside the region *)
predicate closest (es: vec edge) (w: vec real) (sd: vec int) (bg: int) (lab: vec int) (v s: int) = seed sd bg s /\\ sd[s] = lab[v] /\\ forall lam t. seed sd bg t -> under es w lam v t -> inside es w lam lab v s
predicate sw_seeds (sd: vec int) (bg: int) (lab: vec int) = lab.len = sd.len /\\ forall v. seed sd bg v -> lab[v] = sd[v]
predicate sw_bg (es: vec edge) (w: vec real) (sd: vec int) (bg: int) (lab: vec int) = forall v. 0 <= v < lab.len -> lab[v] = bg -> forall lam t. seed sd bg t -> not (under es w lam v t)
predicate sw_closest (es: vec edge) (w: vec real) (sd: vec int) (bg: int) (lab: vec int) = forall v. 0 <= v < lab.len -> lab[v] <> bg -> exists s. closest es w sd bg lab v s
(** linked by the first j edges of sx that stay in a class *)
predicate cin (es: vec edge) (sx: vec int) (j: int) (cls: int -> int) (a b: int) = forall f: int -> int. (forall k. 0 <= k < j -> joins es cls sx[k] -> joins es f sx[k]) -> f a = f b
predicate sw_lab (sd lab: vec int) (bg n: int) (cls sr: int -> int) = lab.len = n = sd.len /\\ parti cls n /\\ (forall v. seed sd bg v -> lab[v] = sd[v]) /\\ (forall v. 0 <= v < n -> lab[v] <> bg -> lab[v] = lab[cls v]) /\\
  (forall v. 0 <= v < n -> lab[cls v] <> bg -> seed sd bg (sr (cls v)) /\\ sd[sr (cls v)] = lab[cls v] /\\ cls (sr (cls v)) = cls v) 
predicate sw_cls (es: vec edge) (sx: vec int) (i n: int) (cls: int -> int) = forall u v. 0 <= u < n -> 0 <= v < n -> cls u = cls v -> cin es sx i cls u v
predicate sw_edges (es: vec edge) (sx lab: vec int) (bg i: int) (cls: int -> int) = forall j. 0 <= j < i -> joins es cls sx[j] \\/ (lab[cls es[sx[j]].edge_source] <> bg /\\ lab[cls es[sx[j]].edge_target] <> bg)
predicate sw_reach (es: vec edge) (sx sd lab: vec int) (bg i n: int) (cls sr: int -> int) = forall j v t. 0 <= j <= i -> 0 <= v < n -> seed sd bg t -> linked_by es sx j v t -> lab[cls v] <> bg /\\ cin es sx j cls v (sr (cls v))
predicate sw_inv (es: vec edge) (sx sd lab: vec int) (bg i n: int) (cls sr: int -> int) = sw_lab sd lab bg n cls sr /\\ sw_cls es sx i n cls /\\ sw_edges es sx lab bg i cls /\\ sw_reach es sx sd lab bg i n cls sr
""", deps=['qfz', 'kruskal'])
WA = '(es: vec edge) (sx sd lab lab2: vec int) (bg i n: int) (cls sr: int -> int)'
WR = ['sw_inv es sx sd lab bg i n cls sr', 'live_edges es n', 'is_perm sx es.len', '0 <= i < sx.len']
# once the classes and labels of step i + 1 are right, what is reachable at rank i + 1 follows
lemma('sw_more', '(es: vec edge) (sx sd lab: vec int) (bg i n: int) (cls sr: int -> int)', ['sw_lab sd lab bg n cls sr', 'sw_cls es sx i n cls', 'sw_edges es sx lab bg i cls', 'live_edges es n', 'is_perm sx es.len', '0 <= i <= sx.len'],
      ['forall v t. 0 <= v < n -> seed sd bg t -> linked_by es sx i v t -> lab[cls v] <> bg /\\ cin es sx i cls v (sr (cls v))'],
      body="""let lemma one (v t: int) : unit requires { 0 <= v < n /\\ seed sd bg t /\\ linked_by es sx i v t } ensures { lab[cls v] <> bg /\\ cin es sx i cls v (sr (cls v)) } =
        if pure { lab[cls v] = bg } then begin let ghost f = pure { fun x -> if cls x = cls v then 1 else 0 } in assert { forall k. 0 <= k < i -> joins es f sx[k] }; assert { f v = f t }; assert { cls t = cls v }; assert { false } end in ()""", use=['sws'])
lemma('sw_skip', WA.replace(' lab2', ''), WR + ['let e = es[sx[i]] in cls e.edge_source = cls e.edge_target \\/ lab[cls e.edge_source] <> bg /\\ lab[cls e.edge_target] <> bg'], ['sw_inv es sx sd lab bg (i + 1) n cls sr'],
      body='assert { forall f u v. 0 <= u < n -> 0 <= v < n -> cls u = cls v -> (forall k. 0 <= k < i + 1 -> joins es cls sx[k] -> joins es f sx[k]) -> f u = f v }; assert { sw_cls es sx (i + 1) n cls }; assert { sw_edges es sx lab bg (i + 1) cls }; sw_more es sx sd lab bg (i + 1) n cls sr; assert { sw_reach es sx sd lab bg (i + 1) n cls sr }', use=['sws'], lemmas=['sw_more'])
lemma('sw_merge', WA + ' (r: int)', WR + ['let e = es[sx[i]] in let a = cls e.edge_source in let b = cls e.edge_target in a <> b /\\ (r = a \\/ r = b) /\\ lab2.len = lab.len /\\ '
      '((lab[a] = bg /\\ lab2[a] = lab[b] /\\ forall k. k <> a -> lab2[k] = lab[k]) \\/ (lab[a] <> bg /\\ lab[b] = bg /\\ lab2[b] = lab[a] /\\ forall k. k <> b -> lab2[k] = lab[k]))'],
      ['let e = es[sx[i]] in sw_inv es sx sd lab2 bg (i + 1) n (uf_merge cls (cls e.edge_source) (cls e.edge_target) r) sr2'],
      body="""let ghost e = es.elts (sx.elts i) in let ghost a = cls e.edge_source in let ghost b = cls e.edge_target in let ghost c2 = pure { uf_merge cls a b r } in
        let ghost q = (if pure { lab[a] = bg } then sr b else sr a) in let ghost sr2 = pure { Map.set sr r q } in
        assert { 0 <= sx[i] < es.len }; assert { 0 <= e.edge_source < n /\\ 0 <= e.edge_target < n }; assert { cls a = a /\\ cls b = b /\\ 0 <= a < n /\\ 0 <= b < n };
        assert { parti c2 n }; assert { lab2[a] = lab2[b] }; assert { lab2[r] = lab2[a] /\\ lab2[r] = lab2[b] };
        assert { forall v. 0 <= v < n -> cls v <> a -> cls v <> b -> c2 v = cls v /\\ lab2[c2 v] = lab[cls v] /\\ sr2 (c2 v) = sr (cls v) };
        assert { forall v. 0 <= v < n -> cls v = a \\/ cls v = b -> c2 v = r };
        assert { forall v. 0 <= v < n -> lab[cls v] = bg -> lab[v] = bg };
        assert { forall v. seed sd bg v -> lab2[v] = sd[v] };
        assert { forall v. 0 <= v < n -> lab2[v] <> bg -> lab2[v] = lab2[c2 v] };
        assert { lab2[r] <> bg -> seed sd bg q /\\ sd[q] = lab2[r] /\\ c2 q = r };
        assert { sw_lab sd lab2 bg n c2 sr2 };
        assert { forall f. (forall k. 0 <= k < i + 1 -> joins es c2 sx[k] -> joins es f sx[k]) -> (forall k. 0 <= k < i -> joins es cls sx[k] -> joins es f sx[k]) };
        assert { forall j f. j <= i -> (forall k. 0 <= k < j -> joins es c2 sx[k] -> joins es f sx[k]) -> (forall k. 0 <= k < j -> joins es cls sx[k] -> joins es f sx[k]) };
        assert { forall j u v. j <= i -> cin es sx j cls u v -> cin es sx j c2 u v };
        assert { joins es c2 sx[i] };
        assert { forall f. (forall k. 0 <= k < i + 1 -> joins es c2 sx[k] -> joins es f sx[k]) -> (forall u v. 0 <= u < n -> 0 <= v < n -> cls u = cls v -> f u = f v) /\\ f e.edge_source = f e.edge_target };
        assert { forall f. (forall k. 0 <= k < i + 1 -> joins es c2 sx[k] -> joins es f sx[k]) -> f a = f e.edge_source /\\ f b = f e.edge_target };
        assert { forall f. (forall k. 0 <= k < i + 1 -> joins es c2 sx[k] -> joins es f sx[k]) -> (forall u. 0 <= u < n -> c2 u = r -> f u = f a) };
        assert { sw_cls es sx (i + 1) n c2 };
        assert { forall j. 0 <= j < i -> 0 <= sx[j] < es.len };
        assert { sw_edges es sx lab2 bg (i + 1) c2 };
        sw_more es sx sd lab2 bg (i + 1) n c2 sr2;
        assert { forall v. 0 <= v < n -> lab[cls v] <> bg -> sr2 (c2 v) = sr (cls v) /\\ lab2[c2 v] <> bg };
        assert { sw_reach es sx sd lab2 bg (i + 1) n c2 sr2 };
        sr2""", ret='(sr2: int -> int)', use=['sws'], lemmas=['sw_more'])
lemma('sw_rank', '(es: vec edge) (w: vec real) (sx: vec int) (lam: real) (k: int)', ['sorted_edges w sx es.len', 'is_perm sx es.len', '0 <= k <= sx.len', 'forall l. k <= l < sx.len -> lam <. w[sx[l]]'], ['0 <= j <= sx.len', 'forall l. 0 <= l < sx.len -> (l < j <-> w[sx[l]] <=. lam)'],
      body='if k = 0 then 0 else if pure { w[sx[k - 1]] <=. lam } then k else sw_rank es w sx lam (k - 1)', ret='(j: int)', rec=True, variant='k', use=['sws'])
lemma('sw_end', '(es: vec edge) (w: vec real) (sx sd lab lab2: vec int) (bg n: int) (cls sr: int -> int)', ['sw_inv es sx sd lab bg sx.len n cls sr', '0 <= sx.len', 'sorted_edges w sx es.len', 'live_edges es n', 'lab2.len = n', 'forall v. 0 <= v < n -> lab2[v] = if lab[v] = bg then lab[cls v] else lab[v]'],
      ['sw_seeds sd bg lab2', 'sw_bg es w sd bg lab2', 'sw_closest es w sd bg lab2'],
      body="""assert { forall v. 0 <= v < n -> lab2[v] = lab[cls v] };
        let lemma one (lam: real) (v t: int) : unit requires { 0 <= v < n /\\ seed sd bg t /\\ under es w lam v t } ensures { lab2[v] <> bg /\\ inside es w lam lab2 v (sr (cls v)) } =
          assert { sx.len = es.len }; assert { is_perm sx es.len }; let ghost j = sw_rank es w sx lam sx.len in assert { forall e. 0 <= e < es.len -> occurs sx e }; let lemma rk (e: int) : int requires { 0 <= e < es.len /\\ w[e] <=. lam } ensures { 0 <= result < j /\\ sx[result] = e } = assert { occurs sx e }; let ghost k = any int ensures { 0 <= result < sx.len /\\ sx[result] = e } in assert { w[sx[k]] <=. lam }; k in
          assert { forall f. (forall k. 0 <= k < j -> joins es f sx[k]) -> (forall e. 0 <= e < es.len -> w[e] <=. lam -> joins es f e) }; assert { linked_by es sx j v t };
          assert { forall k. 0 <= k < j -> 0 <= sx[k] < es.len /\\ w[sx[k]] <=. lam }; assert { forall k. 0 <= k < j -> joins es cls sx[k] -> lab2[es[sx[k]].edge_source] = lab2[es[sx[k]].edge_target] };
          assert { cin es sx j cls v (sr (cls v)) } in
        assert { forall v. 0 <= v < n -> lab2[v] <> bg -> closest es w sd bg lab2 v (sr (cls v)) }""", use=['sws'], lemmas=['sw_rank'])
GE = 'graph.ug_edges'; GN = 'graph.ug_num_vertices'; SXI = 'sorted_edges_indices'
fn('hg::labelisation_seeded_watershed', 'seeded_ws', use=['sws'], lemmas=['sw_skip', 'sw_merge', 'sw_end'], raises='xedge_weights.len <> %s.len \\/ xvertex_seeds.len <> %s' % (GE, GN),
   requires=['ug_ok graph', 'live_edges %s %s' % (GE, GN)],
   ensures=[('a seed keeps its label', 'sw_seeds xvertex_seeds background_label result'), ('background only where no seed can be reached', 'sw_bg %s xedge_weights xvertex_seeds background_label result' % GE),
            ('label of a closest seed, reached inside the region', 'sw_closest %s xedge_weights xvertex_seeds background_label result' % GE)],
   at={'entry': ['let ghost ref cls = (fun (k: int) -> k) in', 'let ghost ref hh = (fun (_: int) -> 0) in', 'let ghost ref sr = (fun (k: int) -> k) in', 'let ghost ref rr = -1 in', 'let ghost ref lab1 = xvertex_seeds in'],
       'loop2.pre': ['lab1 <- labels'],
       'loop1.pre': ['assert { sorted_edges xedge_weights %s %s.len }' % (SXI, GE)],
       'loop1.begin': ['let ghost lab0 = labels in', 'let ghost cls0 = cls in', 'rr <- -1'],
       'call:uf_link': ['let ghost h2 = any int -> int ensures { uf_inv uf (uf_merge cls0 c1 c2 r_uf_link) result } in', 'rr <- r_uf_link; hh <- h2; cls <- pure { uf_merge cls0 c1 c2 r_uf_link }'],
       'loop1.end': ['if rr <> -1 then begin let ghost s2 = sw_merge {E} {S} xvertex_seeds lab0 labels background_label (i - 1) {N} cls0 sr rr in sr <- s2 end else sw_skip {E} {S} xvertex_seeds labels background_label (i - 1) {N} cls sr'.format(E=GE, S=SXI, N=GN)],
              'return': ['sw_end {E} xedge_weights {S} xvertex_seeds lab1 labels background_label {N} cls sr'.format(E=GE, S=SXI, N=GN)]},
   loops={1: dict(inv=['0 <= i <= num_edges', 'uf_inv uf cls hh', 'uf.uf_parent.len = ' + GN, 'sw_inv {E} {S} xvertex_seeds labels background_label i {N} cls sr'.format(E=GE, S=SXI, N=GN)]),
          2: dict(inv=['0 <= i_1 <= num_nodes', 'uf_inv uf cls hh', 'uf.uf_parent.len = ' + GN, 'forall v. 0 <= v < i_1 -> labels[v] = if lab1[v] = background_label then lab1[cls v] else lab1[v]', 'forall v. i_1 <= v < num_nodes -> labels[v] = lab1[v]'])})
prop('C17', ['seeded_ws', 'stable_arg_sort_d', 'stable_arg_sort_d_less', 'uf_new', 'uf_find', 'uf_link'], lemmas=['sw_end', 'linked_path', 'walk_linked'], harness='C17.cpp')
