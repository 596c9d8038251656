# watershed cut: every vertex goes to a minimum along a path of steepest descent that stays in its region
theory('wsc', """
predicate joins (e: edge) (v n: int) = v <> -1 /\\ n <> -1 /\\ (e.edge_source = v /\\ e.edge_target = n \\/ e.edge_source = n /\\ e.edge_target = v)
(** an edge of least weight at a links a to b *)
predicate steep_by (es: vec edge) (w: vec real) (a b e: int) = 0 <= e < es.len /\\ joins es[e] a b /\\ forall f. 0 <= f < es.len -> incident es[f] a -> w[e] <=. w[f]
predicate steep (es: vec edge) (w: vec real) (a b: int) = exists e. steep_by es w a b e
function steep_ (es: vec edge) (w: vec real) : int -> int -> bool = fun a b -> steep es w a b
(** u is reached from v by steps of st; inside the label l; among the vertices that are not marked *)
predicate reach (st: int -> int -> bool) (v u: int) = forall t: int -> bool. (forall a b. st a b -> t a -> t b) -> t v -> t u
predicate reach_lab (st: int -> int -> bool) (lab: vec int) (l v u: int) = forall t: int -> bool. (forall a b. st a b -> lab[a] = l -> lab[b] = l -> t a -> t b) -> t v -> t u
predicate reach_in (st: int -> int -> bool) (nl: vec bool) (v u: int) = forall t: int -> bool. (forall a b. st a b -> nl[a] = False -> nl[b] = False -> t a -> t b) -> t v -> t u
(** m l belongs to a minimum (every vertex reached from it by steepest descent has the label l, hence leads back to it), which is the only one labelled l *)
predicate minimum_of (st: int -> int -> bool) (lab: vec int) (l m n: int) = 0 <= m < n /\\ lab[m] = l /\\ forall u. reach st m u -> 0 <= u < n /\\ lab[u] = l
predicate basins (st: int -> int -> bool) (lab: vec int) (k: int) (m: int -> int) (n none: int) =
  (forall v. 0 <= v < n -> lab[v] = none \\/ 1 <= lab[v] <= k) /\\ (forall v. 0 <= v < n -> lab[v] <> none -> reach_lab st lab lab[v] v (m lab[v])) /\\ (forall l. 1 <= l <= k -> minimum_of st lab l (m l) n)
predicate catchment_by (es: vec edge) (w: vec real) (lab: vec int) (n k: int) (m: int -> int) = 0 <= k /\\ (forall v. 0 <= v < n -> 1 <= lab[v] <= k) /\\ (forall v. 0 <= v < n -> reach_lab (steep_ es w) lab lab[v] v (m lab[v])) /\\ forall l. 1 <= l <= k -> minimum_of (steep_ es w) lab l (m l) n
predicate catchment (es: vec edge) (w: vec real) (lab: vec int) (n: int) = lab.len = n /\\ exists k m. catchment_by es w lab n k m

function tset (v: vec bool) : int -> bool = fun a -> v[a] = True
function other_ (e: edge) (v: int) : int = if e.edge_source = v then e.edge_target else e.edge_source
(** f.(v) is the least weight of the edges of v *)
predicate least (out: vec (vec int)) (w: vec real) (v: int) (x: real) (j: int) = (forall k. 0 <= k < j -> x <=. w[out[v][k]]) /\\ (0 < j -> exists k. 0 <= k < j /\\ w[out[v][k]] = x)
predicate hits (out: vec (vec int)) (es: vec edge) (w f: vec real) (y b k: int) = 0 <= k < out[y].len /\\ w[out[y][k]] = f[y] /\\ other_ es[out[y][k]] y = b
predicate st_ok (out: vec (vec int)) (es: vec edge) (w f: vec real) (n: int) (st: int -> int -> bool) =
  (forall a b. st a b -> 0 <= a < n /\\ 0 <= b < n /\\ f[b] <=. f[a] /\\ (f[a] = f[b] -> st b a)) /\\
  (forall y k. 0 <= y < n -> 0 <= k < out[y].len -> 0 <= out[y][k] < es.len /\\ es[out[y][k]].edge_index = out[y][k] /\\ let b = other_ es[out[y][k]] y in 0 <= b < n /\\ f[b] <=. w[out[y][k]] /\\ (w[out[y][k]] = f[y] -> st y b)) /\\
  (forall y b. st y b -> exists k. hits out es w f y b k)
predicate explored (st: int -> int -> bool) (f: vec real) (n: int) (lab: vec int) (none: int) (nl: vec bool) (p: int) = 0 <= p < n /\\ nl[p] = False /\\
  forall a. 0 <= a < n -> nl[a] = False -> lab[a] = none /\\ f[p] <=. f[a] /\\ reach_in st nl a p /\\ (f[a] = f[p] -> reach_in st nl p a)
predicate listed (n: int) (nl: vec bool) (l: vec int) = 0 <= l.len /\\ (forall k. 0 <= k < l.len -> 0 <= l[k] < n /\\ nl[l[k]] = False) /\\ forall a. 0 <= a < n -> nl[a] = False -> occurs l a
predicate queue (n: int) (f: vec real) (nl: vec bool) (p: int) (ll: vec int) = 0 <= ll.len /\\ forall k. 0 <= k < ll.len -> 0 <= ll[k] < n /\\ nl[ll[k]] = False /\\ f[ll[k]] = f[p]
predicate whole (st: int -> int -> bool) (nl: vec bool) (a: int) = forall b. st a b -> nl[b] = False
predicate frontier (st: int -> int -> bool) (f: vec real) (n: int) (nl: vec bool) (p y: int) (ll: vec int) = forall a. 0 <= a < n -> nl[a] = False -> f[a] = f[p] -> a = y \\/ occurs ll a \\/ whole st nl a
(** y, explored, leads to a vertex of another region *)
predicate joined (st: int -> int -> bool) (f: vec real) (n: int) (lab: vec int) (none: int) (nl: vec bool) (p y b: int) = 0 <= y < n /\\ nl[y] = False /\\ f[y] = f[p] /\\ st y b /\\ 0 <= b < n /\\ lab[b] <> none
predicate assigned (n: int) (lab: vec int) (nl: vec bool) (res: int) (lab2: vec int) = lab2.len = lab.len /\\ forall a. 0 <= a < n -> lab2[a] = if nl[a] = False then res else lab[a]
""", deps=['ug', 'subtree_count'])
SA = '(st: int -> int -> bool) (f: vec real) (n: int) (lab: vec int) (none: int) (nl: vec bool) (p: int)'
lemma('wsc_st', '(g: ug) (w f: vec real)', ['ug_ok g', 'w.len = g.ug_edges.len', 'forall v. 0 <= v < g.ug_num_vertices -> least g.ug_out_edges w v f[v] g.ug_out_edges[v].len'], ['st_ok g.ug_out_edges g.ug_edges w f g.ug_num_vertices (steep_ g.ug_edges w)'],
      body="""let ghost pos = any int -> int -> int ensures { adj_ok g.ug_num_vertices g.ug_edges g.ug_out_edges result } in
        assert { forall y e. 0 <= y < g.ug_num_vertices -> 0 <= e < g.ug_edges.len -> incident g.ug_edges[e] y -> f[y] <=. w[e] };
        assert { forall y e. 0 <= y < g.ug_num_vertices -> 0 <= e < g.ug_edges.len -> incident g.ug_edges[e] y -> exists k. 0 <= k < g.ug_out_edges[y].len /\\ w[g.ug_out_edges[y][k]] = f[y] };
        assert { forall a b e. 0 <= e < g.ug_edges.len -> joins g.ug_edges[e] a b -> 0 <= a < g.ug_num_vertices /\\ 0 <= b < g.ug_num_vertices /\\ incident g.ug_edges[e] a /\\ incident g.ug_edges[e] b /\\ joins g.ug_edges[e] b a /\\ other_ g.ug_edges[e] a = b };
        assert { forall y k. 0 <= y < g.ug_num_vertices -> 0 <= k < g.ug_out_edges[y].len -> let e = g.ug_out_edges[y][k] in 0 <= e < g.ug_edges.len /\\ g.ug_edges[e].edge_index = e /\\ joins g.ug_edges[e] y (other_ g.ug_edges[e] y) };
        assert { forall a b e. steep_by g.ug_edges w a b e -> w[e] = f[a] };
        assert { forall a b e. 0 <= e < g.ug_edges.len -> joins g.ug_edges[e] a b -> w[e] = f[a] -> steep_by g.ug_edges w a b e };
        assert { forall a b e. steep_by g.ug_edges w a b e -> f[b] <=. f[a] /\\ (f[a] = f[b] -> steep_by g.ug_edges w b a e) };
        assert { forall y b e. steep_by g.ug_edges w y b e -> hits g.ug_out_edges g.ug_edges w f y b (pos e y) };
        let ghost st = pure { steep_ g.ug_edges w } in assert { forall a b. st a b <-> steep g.ug_edges w a b };
        assert { forall a b. st a b -> 0 <= a < g.ug_num_vertices /\\ 0 <= b < g.ug_num_vertices };
        assert { forall a b. st a b -> f[b] <=. f[a] /\\ (f[a] = f[b] -> st b a) };
        assert { forall y b. st y b -> exists k. hits g.ug_out_edges g.ug_edges w f y b k };
        assert { forall y k. 0 <= y < g.ug_num_vertices -> 0 <= k < g.ug_out_edges[y].len -> let e = g.ug_out_edges[y][k] in let b = other_ g.ug_edges[e] y in 0 <= b < g.ug_num_vertices /\\ f[b] <=. w[e] /\\ (w[e] = f[y] -> steep_by g.ug_edges w y b e) };
        assert { forall y k. 0 <= y < g.ug_num_vertices -> 0 <= k < g.ug_out_edges[y].len -> let e = g.ug_out_edges[y][k] in w[e] = f[y] -> st y (other_ g.ug_edges[e] y) }""", use=['wsc'])
lemma('ri_mono', '(st: int -> int -> bool) (nl nl2: vec bool)', ['forall a b. st a b -> nl[a] = False -> nl[b] = False -> nl2[a] = False /\\ nl2[b] = False'], ['forall v u. reach_in st nl v u -> reach_in st nl2 v u'],
      body='assert { forall t: int -> bool. (forall a b. st a b -> nl2[a] = False -> nl2[b] = False -> t a -> t b) -> (forall a b. st a b -> nl[a] = False -> nl[b] = False -> t a -> t b) }', use=['wsc'])
lemma('ri_lab', '(st: int -> int -> bool) (nl: vec bool) (lab: vec int) (l: int)', ['forall a b. st a b -> nl[a] = False -> nl[b] = False -> lab[a] = l /\\ lab[b] = l'], ['forall v u. reach_in st nl v u -> reach_lab st lab l v u'],
      body='assert { forall t: int -> bool. (forall a b. st a b -> lab[a] = l -> lab[b] = l -> t a -> t b) -> (forall a b. st a b -> nl[a] = False -> nl[b] = False -> t a -> t b) }', use=['wsc'])
lemma('rl_mono', '(st: int -> int -> bool) (lab lab2: vec int) (l: int)', ['forall a b. st a b -> lab[a] = l -> lab[b] = l -> lab2[a] = l /\\ lab2[b] = l'], ['forall v u. reach_lab st lab l v u -> reach_lab st lab2 l v u'],
      body='assert { forall t: int -> bool. (forall a b. st a b -> lab2[a] = l -> lab2[b] = l -> t a -> t b) -> (forall a b. st a b -> lab[a] = l -> lab[b] = l -> t a -> t b) }', use=['wsc'])
# a vertex b reached from y is added; it becomes the start of a new plateau when lower
lemma('ex_add', SA + ' (out: vec (vec int)) (es: vec edge) (w: vec real) (nl2: vec bool) (y b q: int)', ['st_ok out es w f n st', 'explored st f n lab none nl p', '0 <= y < n', 'nl[y] = False', 'f[y] = f[p]', 'st y b', 'nl[b] = True', 'lab[b] = none', 'nl2[b] = False', 'forall a. a <> b -> nl2[a] = nl[a]',
        'if f[b] <. f[y] then q = b else q = p'], ['explored st f n lab none nl2 q', 'f[b] = f[q]'],
      body="""ri_mono st nl nl2; assert { f[b] <=. f[y] }; assert { reach_in st nl p y }; assert { reach_in st nl2 y b }; assert { f[b] = f[y] -> st b y && reach_in st nl2 b y };
        assert { forall a. 0 <= a < n -> nl2[a] = False -> a <> b -> reach_in st nl2 a p && reach_in st nl2 a y && reach_in st nl2 a b }""", use=['wsc'], lemmas=['ri_mono'])
lemma('ex_old', SA + ' (k: int) (m: int -> int) (y b: int) (lab2: vec int) (out: vec (vec int)) (es: vec edge) (w: vec real)', ['st_ok out es w f n st', 'basins st lab k m n none', 'k < none', 'explored st f n lab none nl p', 'joined st f n lab none nl p y b', 'assigned n lab nl lab[b] lab2'], ['basins st lab2 k m n none'],
      body="""let ghost r = lab.elts b in assert { 1 <= r <= k }; assert { nl[b] = True }; assert { lab2[b] = r /\\ lab2[y] = r };
        let lemma mono (l: int) : unit requires { 1 <= l <= k } ensures { forall v u. reach_lab st lab l v u -> reach_lab st lab2 l v u } = rl_mono st lab lab2 l in
        ri_lab st nl lab2 r; assert { reach_lab st lab2 r b (m r) }; assert { reach_lab st lab2 r y b };
        assert { forall a. 0 <= a < n -> nl[a] = False -> reach_in st nl a p && reach_in st nl p y && reach_lab st lab2 r a y && reach_lab st lab2 r a b && reach_lab st lab2 r a (m r) };
        assert { forall v. 0 <= v < n -> lab[v] <> none -> lab2[v] = lab[v] };
        assert { forall v. 0 <= v < n -> lab2[v] <> none -> reach_lab st lab2 lab2[v] v (m lab2[v]) };
        assert { forall l. 1 <= l <= k -> minimum_of st lab2 l (m l) n }""", use=['wsc'], lemmas=['rl_mono', 'ri_lab'])
lemma('ex_new', SA + ' (k: int) (m: int -> int) (ll lab2: vec int) (out: vec (vec int)) (es: vec edge) (w: vec real)', ['st_ok out es w f n st', 'basins st lab k m n none', '0 <= k', 'k + 1 < none', 'explored st f n lab none nl p', 'frontier st f n nl p (-1) ll', 'll.len = 0', 'assigned n lab nl (k + 1) lab2'], ['basins st lab2 (k + 1) (Map.set m (k + 1) p) n none'],
      body="""let ghost m2 = pure { Map.set m (k + 1) p } in
        let lemma mono (l: int) : unit requires { 1 <= l <= k } ensures { forall v u. reach_lab st lab l v u -> reach_lab st lab2 l v u } = rl_mono st lab lab2 l in
        ri_lab st nl lab2 (k + 1); let ghost t = pure { fun a -> if 0 <= a < n && nl[a] = False then f[a] = f[p] else false } in
        assert { forall a. t a -> 0 <= a < n /\\ nl[a] = False /\\ f[a] = f[p] /\\ whole st nl a }; assert { forall a b. st a b -> t a -> t b }; assert { t p }; assert { forall u. reach st p u -> t u };
        assert { minimum_of st lab2 (k + 1) p n }; assert { forall v. 0 <= v < n -> lab[v] <> none -> lab2[v] = lab[v] };
        assert { forall v. 0 <= v < n -> lab2[v] <> none -> reach_lab st lab2 lab2[v] v (m2 lab2[v]) };
        assert { forall l. 1 <= l <= k -> minimum_of st lab2 l (m l) n }""", use=['wsc'], lemmas=['rl_mono', 'ri_lab'])
lemma('wsc_end', '(es: vec edge) (w: vec real) (lab: vec int) (n k: int) (m: int -> int) (none: int)', ['basins (steep_ es w) lab k m n none', '0 <= k', 'lab.len = n', 'forall v. 0 <= v < n -> lab[v] <> none'], ['catchment es w lab n'],
      body='assert { forall v. 0 <= v < n -> 1 <= lab[v] <= k }; assert { catchment_by es w lab n k m }', use=['wsc'])# what the catchment basins imply: two minima with the same label are the same minimum
lemma('basin_unique', '(es: vec edge) (w: vec real) (lab: vec int) (n k: int) (m: int -> int) (a b: int)', ['catchment_by es w lab n k m', '0 <= a < n', '0 <= b < n', 'lab[a] = lab[b]', 'forall u. reach (steep_ es w) a u -> reach (steep_ es w) u a', 'forall u. reach (steep_ es w) b u -> reach (steep_ es w) u b'], ['reach (steep_ es w) a b'],
      body='let ghost st = pure { steep_ es w } in let ghost c = m (lab.elts a) in assert { forall v. reach_lab st lab lab[v] v c -> reach st v c }; assert { reach st a c /\\ reach st b c }', use=['wsc'])
GG = dict(O='graph.ug_out_edges', E='graph.ug_edges', N='graph.ug_num_vertices', W='xedge_weights', F='fminus', X='no_label')
def g_(s): return s.replace('@O', GG['O']).replace('@E', GG['E']).replace('@N', GG['N']).replace('@W', GG['W'])
STOK = 'st_ok @O @E @W fminus @N st'
BAS = 'basins st labels num_labs mn @N no_label'
ADJ = 'other_ @E[@O[y][e_it_1]] y'
EXPL = ['explored st fminus @N labels no_label notInL p', 'listed @N notInL v_L']
def G(x):
    return g_(x) if isinstance(x, str) else [G(y) for y in x] if isinstance(x, list) else {k: G(v) for k, v in x.items()} if isinstance(x, dict) else x
fn('hg::labelisation_watershed', 'ws_cut', use=['wsc'], lemmas=['wsc_st', 'ex_add', 'ex_old', 'ex_new', 'wsc_end', 'cntb_set', 'cntb_sub'], raises=G('xedge_weights.len <> @E.len'),
   requires=G(['ug_ok graph', '@N < 9223372036854775807', 'forall e. 0 <= e < @W.len -> @W[e] <=. c_real_max']),
   ensures=[('catchment basins of the minima, reached by steepest descent', G('catchment @E @W result @N'))],
   at=G({'entry': ['let ghost ref mn = (fun (k: int) -> k) in'], 'loop3.pre': ['wsc_st graph @W fminus', 'let ghost st = pure { steep_ @E @W } in', 'let ghost ref p = -1 in', 'let ghost ref gy = -1 in', 'let ghost ref gb = -1 in'],
       'loop3.begin': ['let ghost lab0 = labels in', 'let ghost k0 = num_labs in', 'let ghost v0 = v_it_1 in', 'let ghost ref nl1 = notInL in', 'let ghost ref rs = 0 in', 'let ghost ref lq = v_LL in'],
       'loop4.pre': ['p <- v_3', 'assert { v_L[0] = v_3 /\\ occurs v_L v_3 /\\ v_LL[0] = v_3 /\\ occurs v_LL v_3 }', 'cntb_sub (tset notInL) (tset notInL) @N'],
       'loop4.begin': ['let ghost ll4 = v_LL in', 'cntb_sub (tset notInL) (tset notInL) @N'],
       'loop5.pre': ['let ghost p5 = p in', 'assert { y = ll4[v_LL.len] }', 'assert { forall u. occurs ll4 u -> u = y \\/ occurs v_LL u }'],
       'loop5.post': ['assert { fminus[y] = fminus[p] -> whole st notInL y }', 'assert { frontier st fminus @N notInL p (-1) v_LL }'],
       'after:notInL:3': ['ex_add st fminus @N labels no_label nl0 p0 @O @E @W notInL y gb gb', 'p <- gb', 'cntb_set (tset notInL) (tset nl0) gb @N', 'assert { v_L[l0.len] = gb /\\ v_L.len = l0.len + 1 /\\ forall k. 0 <= k < l0.len -> v_L[k] = l0[k] }', 'assert { forall u. occurs l0 u -> occurs v_L u }', 'assert { occurs v_L gb }'],
       'after:notInL:4': ['ex_add st fminus @N labels no_label nl0 p0 @O @E @W notInL y gb p0', 'cntb_set (tset notInL) (tset nl0) gb @N', 'assert { v_L[l0.len] = gb /\\ v_L.len = l0.len + 1 /\\ forall k. 0 <= k < l0.len -> v_L[k] = l0[k] }', 'assert { forall u. occurs l0 u -> occurs v_L u }', 'assert { occurs v_L gb }'],
       'loop5.end': ['assert { notInL[gb] <> nl0[gb] -> v_LL[ll0.len] = gb /\\ v_LL.len = ll0.len + 1 }', 'assert { v_LL.len >= ll0.len /\\ forall k. 0 <= k < ll0.len -> v_LL[k] = ll0[k] }', 'assert { forall u. occurs ll0 u -> occurs v_LL u }', 'assert { notInL[gb] <> nl0[gb] -> occurs v_LL gb }', 'assert { forall a. whole st nl0 a -> whole st notInL a }'],
       'loop5.begin': ['gy <- y', 'gb <- pure { %s }' % ADJ, 'let ghost nl0 = notInL in', 'let ghost p0 = p in', 'let ghost ll0 = v_LL in', 'let ghost l0 = v_L in', 'assert { 0 <= gb < @N /\\ fminus[gb] <=. @W[@O[y][e_it_1]] }', 'assert { @W[@O[y][e_it_1]] = fminus[y] -> st y gb }'],
       'decl:res': ['assert { notInL[v_3] = False }', 'assert { (res = no_label -> frontier st fminus @N notInL p (-1) v_LL /\\ v_LL.len = 0) /\\ (res <> no_label -> joined st fminus @N labels no_label notInL p gy gb /\\ labels[gb] = res) }', 'nl1 <- notInL', 'rs <- res', 'lq <- v_LL', 'assert { forall a. 0 <= a < @N -> nl1[a] = False -> occurs v_L a }'],
       'loop3.end': ['if pure { lab0[v0] = no_label } then begin assert { assigned @N lab0 nl1 (if rs = no_label then num_labs else rs) labels }; assert { nl1[v0] = False }; assert { labels[v0] <> no_label }; assert { forall a. 0 <= a < v0 -> lab0[a] <> no_label /\\ labels[a] <> no_label }; if rs = no_label then begin ex_new st fminus @N lab0 no_label nl1 p k0 mn lq labels @O @E @W; mn <- pure { Map.set mn num_labs p } end else ex_old st fminus @N lab0 no_label nl1 p k0 mn gy gb labels @O @E @W end'],
       'loop7.begin': ['let ghost la = labels in', 'let ghost na = notInL in'], 'loop7.end': ['assert { forall a. labels[a] = if a = x_2 then res else la[a] }', 'assert { forall a. notInL[a] = if a = x_2 then True else na[a] }'],
       'loop6.post': ['assert { forall a. 0 <= a < @N -> nl1[a] = False -> occurs v_L a && notInL[a] = True && labels[a] = num_labs }'],
       'loop7.post': ['assert { forall a. 0 <= a < @N -> nl1[a] = False -> occurs v_L a && notInL[a] = True && labels[a] = res }'],
       'return': ['assert { forall v. 0 <= v < @N -> labels[v] <> no_label }', 'wsc_end @E @W labels @N num_labs mn no_label']}),
   loops=G({1: dict(inv=['0 <= v_it <= @N', 'v_end = @N', 'forall u. 0 <= u < v_it -> least @O @W u fminus[u] @O[u].len']),
          2: dict(inv=['0 <= e_it <= e_end', 'e_end = @O[v].len', 'least @O @W v minValue e_it', 'e_it = 0 -> minValue = c_real_max']),
          3: dict(inv=['0 <= v_it_1 <= @N', 'v_end_1 = @N', '0 <= num_labs <= v_it_1', 'forall a. 0 <= a < @N -> notInL[a] = True', 'forall a. 0 <= a < v_it_1 -> labels[a] <> no_label', BAS]),
          4: dict(inv=EXPL + ['queue @N fminus notInL p v_LL', 'notInL[v_3] = False', 'frontier st fminus @N notInL p (-1) v_LL'], var='2 * cntb (tset notInL) @N + v_LL.len'),
          5: dict(inv=EXPL + ['queue @N fminus notInL p v_LL', 'notInL[v_3] = False', 'frontier st fminus @N notInL p y v_LL', '0 <= y < @N', 'notInL[y] = False', 'fminus[y] = fminus[p]', '0 <= e_it_1 <= e_end_1', 'e_end_1 = @O[y].len', 'p = p5',
                          'forall k. 0 <= k < e_it_1 -> @W[@O[y][k]] = fminus[y] -> notInL[other_ @E[@O[y][k]] y] = False', '2 * cntb (tset notInL) @N + v_LL.len <= 2 * cntb (tset notInL_at5) @N + v_LL_at5.len']),
          6: dict(inv=['0 <= x_it <= x_end', 'x_end = v_L.len', 'forall k. 0 <= k < x_it -> labels[v_L[k]] = num_labs /\\ notInL[v_L[k]] = True', 'forall a. 0 <= a < @N -> labels[a] = lab0[a] \\/ (labels[a] = num_labs /\\ nl1[a] = False)', 'forall a. 0 <= a < @N -> nl1[a] = True -> notInL[a] = True']), 7: dict(inv=['0 <= x_it_1 <= x_end_1', 'x_end_1 = v_L.len', 'forall k. 0 <= k < x_it_1 -> labels[v_L[k]] = res /\\ notInL[v_L[k]] = True', 'forall a. 0 <= a < @N -> labels[a] = lab0[a] \\/ (labels[a] = res /\\ nl1[a] = False)', 'forall a. 0 <= a < @N -> nl1[a] = True -> notInL[a] = True'])}))
prop('C40', ['ws_cut'], lemmas=['wsc_end', 'basin_unique'], harness='C40.cpp')
