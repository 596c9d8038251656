# range minimum queries and lowest common ancestors
RM = 'hg::range_minimum_query_internal::rmq_sparse_table'
short(RM, 'rmq'); short(RM + '_block', 'rmqb')
lemma('pow2_pos', '(k: int)', ['0 <= k'], ['1 <= pow2 k', 'pow2 (k + 1) = 2 * pow2 k', 'k < pow2 k'], body='pow2_def k; if k > 0 then begin pow2_pos (k - 1); pow2_def (k - 1) end', rec=True, variant='k')
lemma('pow2_mono', '(a b: int)', ['0 <= a <= b'], ['pow2 a <= pow2 b'], body='pow2_pos a; if a < b then begin pow2_mono a (b - 1); pow2_pos (b - 1) end', rec=True, variant='b', lemmas=['pow2_pos'])
theory('spt', r"""
(** p is a position of mp[a .. b) that minimizes d *)
predicate hits (mp: vec int) (a b p: int) = exists m. a <= m < b /\ mp[m] = p
predicate min_of (d mp: vec int) (a b p: int) = hits mp a b p /\ forall j. a <= j < b -> d[p] <= d[mp[j]]
predicate row_ok (d mp: vec int) (t: vec int) (w: int) = t.len = mp.len - w + 1 /\ forall i. 0 <= i < t.len -> min_of d mp i (i + w) t[i]
predicate map_ok (d mp: vec int) = 1 <= mp.len /\ forall i. 0 <= i < mp.len -> 0 <= mp[i] < d.len
predicate table_ok (d: vec int) (st: vec (vec int)) = map_ok d st[0] /\ 1 <= st.len /\ pow2 (st.len - 1) <= st[0].len < pow2 st.len /\ forall k. 0 <= k < st.len -> row_ok d st[0] st[k] (pow2 k)
predicate identity (v: vec int) (n: int) = v.len = n /\ forall i. 0 <= i < n -> v[i] = i
""")
lemma('min_join', '(d mp: vec int) (a b c e p q r: int)', ['min_of d mp a b p', 'min_of d mp c e q', 'a <= c <= b <= e', 'r = (if d[p] < d[q] then p else q)'], ['min_of d mp a e r'], use=['spt'])
theory('rmq', r"""
predicate rmq_ok (q: rmq) (d: vec int) = q.rmq_m_data = d /\ table_ok d q.rmq_m_sparse_table
function rmq_map (q: rmq) : vec int = q.rmq_m_sparse_table[0]
""", recs=['hg::range_minimum_query_internal::rmq_sparse_table<long>'], deps=['spt'])
fn(RM + '::fast_log2', 'rmq_log2', lemmas=['pow2_pos'], requires=['0 < length'], ensures=[('integer logarithm', '0 <= result <= 63 /\\ pow2 result <= length < pow2 (result + 1)')])
fn(RM + '::init_sparse_table', 'rmq_init', use=['rmq'], lemmas=['pow2_pos', 'min_join'],
   requires=['this.rmq_m_sparse_table.len = 1', 'map_ok this.rmq_m_data this.rmq_m_sparse_table[0]', 'this.rmq_m_sparse_table[0].len < pow2 30'],
   ensures=[('every row of the table holds the minima of its windows', 'rmq_ok this (old this).rmq_m_data && rmq_map this = rmq_map (old this)')],
   at={'entry': ['let ghost mp = this.rmq_m_sparse_table.elts 0 in let ghost d = this.rmq_m_data in', 'pow2_def 0; assert { row_ok d mp mp 1 }'],
       'loop1.begin': ['pow2_pos lvl; pow2_pos (lvl + 1)', 'let ghost t0 = this.rmq_m_sparse_table in', 'let ghost w = pow2 lvl in assert { w * 2 <= size }'],
       'loop2.begin': ['let ghost a = this.rmq_m_sparse_table in', 'assert { a[lvl] = t0[lvl] }', 'assert { min_of d mp i (i + w) t0[lvl][i] /\\ min_of d mp (i + w) (i + 2 * w) t0[lvl][i + w] }'],
       'loop2.end': ['min_join d mp (i - 1) (i - 1 + w) (i - 1 + w) (i - 1 + 2 * w) p1 p2 ((this.rmq_m_sparse_table.elts (lvl + 1)).elts (i - 1))'],
       'loop1.end': ['assert { row_ok d mp this.rmq_m_sparse_table[lvl] (pow2 lvl) }'],
       'loop1.post': ['pow2_def lvl; assert { size < pow2 (lvl + 1) }', 'assert { this.rmq_m_sparse_table[0] = mp }'],
       },
   loops={1: dict(inv=['0 <= lvl < 30', 'this.rmq_m_sparse_table.len = lvl + 1', 'pow2 lvl <= size', 'size = mp.len < pow2 30', 'this.rmq_m_sparse_table[0] = mp', 'forall k. 0 <= k <= lvl -> row_ok d mp this.rmq_m_sparse_table[k] (pow2 k)'], var='64 - lvl'),
          2: dict(inv=['0 <= i <= size_lvlp1', 'this.rmq_m_sparse_table[lvl + 1].len = size_lvlp1', 'forall k. 0 <= k <= lvl -> this.rmq_m_sparse_table[k] = t0[k]', 'forall j. 0 <= j < i -> min_of d mp j (j + 2 * w) this.rmq_m_sparse_table[lvl + 1][j]'])})
fn(RM + '::rmq_sparse_table', 'rmq_new', sig=r'^[^;]*&\)$', use=['rmq'], requires=['1 <= values.len < pow2 30'], ensures=[('table of the whole array', 'rmq_ok result values && identity (rmq_map result) values.len')])
fn(RM + '::rmq_sparse_table', 'rmq_new_map', sig=r'; .*&&\)$', use=['rmq'], requires=['map_ok values element_map', 'element_map.len < pow2 30'], ensures=[('table of the given positions', 'rmq_ok result values && rmq_map result = element_map')])
fn(RM + '::query', 'rmq_query', use=['rmq'], lemmas=['pow2_pos', 'pow2_mono', 'min_join'],
   at={'call:rmq_log2': ['let ghost st = this.rmq_m_sparse_table in let ghost d = this.rmq_m_data in let ghost mp = st.elts 0 in let ghost w = pow2 r_rmq_log2 in',
                         'if r_rmq_log2 >= st.len then pow2_mono st.len r_rmq_log2; pow2_pos r_rmq_log2',
                         'assert { row_ok d mp st[r_rmq_log2] w }; assert { min_of d mp l (l + w) st[r_rmq_log2][l] /\\ min_of d mp (r - w) r st[r_rmq_log2][r - w] }',
                         'assert { 0 <= st[r_rmq_log2][l] < d.len /\\ 0 <= st[r_rmq_log2][r - w] < d.len }'],
       'return': ['min_join d mp l (l + w) (r - w) r p1 p2 res_']},
   requires=['rmq_ok this this.rmq_m_data', '0 <= l < r <= (rmq_map this).len'], ensures=[('position of the minimum', 'min_of this.rmq_m_data (rmq_map this) l r result'), '0 <= result < this.rmq_m_data.len'])
RB = RM + '_block'
theory('bpos', 'function bpos int int : int\nval ghost bpos_def (y i: int) : unit ensures { bpos y i = i * y }')   # i * y, kept opaque
lemma('mul_gap', '(y i: int)', ['0 < y', '0 <= i'], ['bpos y i = i * y', '0 <= bpos y i', 'bpos y (i + 1) = bpos y i + y', 'forall k. k < i -> bpos y k + y <= bpos y i', 'forall k. i < k -> bpos y i + y <= bpos y k'], use=['bpos'],
      body='let lemma gap (a b: int) requires { a < b } ensures { bpos y a + y <= bpos y b } = bpos_def y a; bpos_def y b; assert { b * y - a * y - y = (b - a - 1) * y } in bpos_def y i; bpos_def y (i + 1)')
lemma('div_facts', '(x y q: int)', ['0 <= x', '0 < y', 'q = div x y'], ['0 <= q <= x', 'bpos y q <= x < bpos y q + y', 'bpos y q = q * y'], use=['bpos'], body='bpos_def y q')
theory('rmqb', r"""
predicate pre_ok (d pr: vec int) (s j: int) = s <= pr[j] <= j && pr[j] < d.len && forall m. s <= m <= j -> m < d.len -> d[pr[j]] <= d[m]
predicate suf_ok (d su: vec int) (j e: int) =
  (j <= su[j] < e /\ su[j] < d.len /\ forall m. j <= m < e -> m < d.len -> d[su[j]] <= d[m]) \/ (e > d.len /\ su[j] = e - 1)
predicate block_ok (d pr su em: vec int) (bs i: int) =
  bpos bs i <= em[i] < bpos bs i + bs /\ em[i] < d.len /\ (forall m. bpos bs i <= m < bpos bs i + bs -> m < d.len -> d[em[i]] <= d[m])
  /\ (forall j. bpos bs i <= j < bpos bs i + bs -> pre_ok d pr (bpos bs i) j) /\ (forall j. bpos bs i <= j < bpos bs i + bs -> j < d.len -> suf_ok d su j (bpos bs i + bs))
predicate blocks_ok (d pr su em: vec int) (bs n: int) = forall i. 0 <= i < n -> block_ok d pr su em bs i
predicate rmqb_shape (q: rmqb) (d: vec int) =
  q.rmqb_m_data = d /\ q.rmqb_m_data_size = d.len < pow2 30 /\ 0 < q.rmqb_m_block_size /\ 1 <= q.rmqb_m_num_blocks <= d.len
  /\ bpos q.rmqb_m_block_size (q.rmqb_m_num_blocks - 1) < d.len <= bpos q.rmqb_m_block_size q.rmqb_m_num_blocks
  /\ q.rmqb_m_block_minimum_prefix.len = q.rmqb_m_block_minimum_suffix.len = bpos q.rmqb_m_block_size q.rmqb_m_num_blocks
predicate rmqb_ok (q: rmqb) (d: vec int) = rmqb_shape q d /\ rmq_ok q.rmqb_m_sparse_table d /\ (rmq_map q.rmqb_m_sparse_table).len = q.rmqb_m_num_blocks
  /\ blocks_ok d q.rmqb_m_block_minimum_prefix q.rmqb_m_block_minimum_suffix (rmq_map q.rmqb_m_sparse_table) q.rmqb_m_block_size q.rmqb_m_num_blocks
""", recs=['hg::range_minimum_query_internal::rmq_sparse_table_block<long>'], deps=['rmq', 'bpos'])
lemma('blocks_frame', '(d p0 s0 m0 pr su em: vec int) (bs n: int)', ['0 < bs', '0 <= n', 'blocks_ok d p0 s0 m0 bs n', 'forall j. j < bpos bs n -> pr[j] = p0[j]', 'forall j. j < bpos bs n -> su[j] = s0[j]', 'forall k. k < n -> em[k] = m0[k]',
                        'block_ok d pr su em bs n'],
      ['blocks_ok d pr su em bs (n + 1)'], use=['rmqb'], lemmas=['mul_gap'], body='mul_gap bs n; assert { forall k. 0 <= k < n -> block_ok d p0 s0 m0 bs k && bpos bs k + bs <= bpos bs n && block_ok d pr su em bs k }')
lemma('blocks_min', '(d pr su em: vec int) (bs n a b p: int)', ['0 < bs', '0 <= a < b <= n', 'blocks_ok d pr su em bs n', 'min_of d em a b p'],
      ['bpos bs a <= p < bpos bs b', '0 <= p < d.len', 'forall m. bpos bs a <= m < bpos bs b -> m < d.len -> d[p] <= d[m]'], use=['rmqb'], lemmas=['mul_gap', 'div_facts'],
      body="""mul_gap bs a; mul_gap bs b; assert { forall k. a <= k < b -> 0 <= bpos bs a <= bpos bs k && bpos bs k + bs <= bpos bs b };
  let lemma cover (m: int) requires { bpos bs a <= m < bpos bs b /\\ m < d.len } ensures { d[p] <= d[m] } =
    let k = div m bs in div_facts m bs k; mul_gap bs k; assert { a <= k < b }; assert { block_ok d pr su em bs k }; assert { d[em[k]] <= d[m] } in ()""")
fn(RB + '::init', 'rmqb_init', use=['rmqb'], lemmas=['mul_gap', 'blocks_frame'], requires=['rmqb_shape this values', 'this.rmqb_m_num_blocks < pow2 30'],
   ensures=[('the blocks hold their minima', 'rmqb_ok this values')],
   at={'entry': ['let ghost d = values in let ghost bs = this.rmqb_m_block_size in let ghost nb = this.rmqb_m_num_blocks in'],
       'loop1.begin': ['mul_gap bs i; mul_gap bs nb', 'let ghost this_at1_ = this in let ghost em_at1_ = element_map in let ghost s = bpos bs i in let ghost e = s + bs in let ghost n = d.len in', 'mul_gap bs (nb - 1); assert { s < n /\\ e <= bpos bs nb }'],
       'loop3.pre': ['assert { forall m. s <= m < e -> m < n -> d[element_map[i]] <= d[m] }'],
       'loop3.post': ['assert { block_ok d this.rmqb_m_block_minimum_prefix this.rmqb_m_block_minimum_suffix element_map bs i }'],
       'loop1.end': ['blocks_frame d this_at1_.rmqb_m_block_minimum_prefix this_at1_.rmqb_m_block_minimum_suffix em_at1_ this.rmqb_m_block_minimum_prefix this.rmqb_m_block_minimum_suffix element_map bs (i - 1)'],
       'loop1.post': ['mul_gap bs 0; assert { forall k. 0 <= k < nb -> 0 <= bpos bs k }', 'assert { forall k. 0 <= k < nb -> block_ok d this.rmqb_m_block_minimum_prefix this.rmqb_m_block_minimum_suffix element_map bs k }'],
       },
   loops={1: dict(inv=['0 <= i <= nb', 'element_map.len = nb', 'blocks_ok d this.rmqb_m_block_minimum_prefix this.rmqb_m_block_minimum_suffix element_map bs i']),
          2: dict(inv=['s + 1 <= j <= e', 's <= current_minimum_index < j', 'current_minimum_index < n', 'current_minimum = d[current_minimum_index]', 'forall m. s <= m < j -> m < n -> current_minimum <= d[m]',
                       'forall m. s <= m < j -> pre_ok d this.rmqb_m_block_minimum_prefix s m', 'forall m. m < s -> this.rmqb_m_block_minimum_prefix[m] = this_at1_.rmqb_m_block_minimum_prefix[m]']),
          3: dict(inv=['s - 1 <= j_1 <= e - 2', 'j_1 < current_minimum_index < e', '(current_minimum_index < n /\\ current_minimum = d[current_minimum_index] /\\ forall m. j_1 < m < e -> m < n -> current_minimum <= d[m]) \\/ (e > n /\\ current_minimum_index = e - 1 /\\ current_minimum = -1 /\\ forall m. j_1 < m < n -> current_minimum <= d[m])',
                       'forall m. j_1 < m < e -> m < n -> suf_ok d this.rmqb_m_block_minimum_suffix m e', 'forall m. m < s -> this.rmqb_m_block_minimum_suffix[m] = this_at1_.rmqb_m_block_minimum_suffix[m]'])})
lemma('blocks_at', '(d pr su em: vec int) (bs n l k: int)', ['0 < bs', '0 <= n', 'blocks_ok d pr su em bs n', '0 <= l < bpos bs n', 'k = div l bs'],
      ['0 <= k < n', 'bpos bs k <= l < bpos bs k + bs', 'pre_ok d pr (bpos bs k) l', 'l < d.len -> suf_ok d su l (bpos bs k + bs)'], use=['rmqb'], lemmas=['mul_gap', 'div_facts'], body='div_facts l bs k; mul_gap bs n; assert { k < n }; assert { block_ok d pr su em bs k }')
fn(RB + '::query', 'rmqb_query', use=['rmqb'], lemmas=['mul_gap', 'div_facts', 'blocks_min', 'blocks_at'],
   at={'decl:rb': ['let ghost d = this.rmqb_m_data in let ghost pr = this.rmqb_m_block_minimum_prefix in let ghost su = this.rmqb_m_block_minimum_suffix in let ghost em = rmq_map this.rmqb_m_sparse_table in let ghost bs = this.rmqb_m_block_size in let ghost nb = this.rmqb_m_num_blocks in',
                   'blocks_at d pr su em bs nb l lb; div_facts r bs rb; if pure { r < bpos bs nb } then blocks_at d pr su em bs nb r rb else blocks_at d pr su em bs nb (r - 1) (div (r - 1) bs); mul_gap bs lb; mul_gap bs rb; mul_gap bs nb',
                   'assert { lb <= rb <= nb }',
                   'assert { lb < rb -> bpos bs lb + bs <= bpos bs rb }', 'assert { lb + 1 < rb -> bpos bs lb + bs + bs <= bpos bs rb }', 'assert { rb < nb -> bpos bs rb + bs <= bpos bs nb }',
                   'assert { r <> bpos bs rb -> rb < nb }'],
       'return': ['assert { l <= res_ <= r /\\ res_ < d.len /\\ forall m. l <= m < r -> d[res_] <= d[m] }'],
       'call:rmq_query:1': ['let ghost hi = (if nb < rb + 1 then nb else rb + 1) in', 'mul_gap bs hi; assert { bpos bs hi = (if nb < rb + 1 then bpos bs nb else bpos bs rb + bs) }', 'blocks_min d pr su em bs nb lb hi r_rmq_query', 'assert { forall m. l <= m < r -> d[r_rmq_query] <= d[m] }'],
       'call:rmq_query:2': ['assert { bpos bs (lb + 1) = bpos bs lb + bs }', 'blocks_min d pr su em bs nb (lb + 1) rb r_rmq_query_1', 'assert { bpos bs lb + bs <= r_rmq_query_1 < bpos bs rb }']},
   requires=['rmqb_ok this this.rmqb_m_data', '0 <= l < r < this.rmqb_m_data.len'],
   ensures=[('position of the minimum', 'l <= result <= r /\\ result < this.rmqb_m_data.len /\\ forall m. l <= m < r -> this.rmqb_m_data[result] <= this.rmqb_m_data[m]')])
fn(RB + '::rmq_sparse_table_block', 'rmqb_new', at={'before:rmqb_init': ['div_facts (values.len + block_size - 1) block_size this_m_num_blocks; mul_gap block_size this_m_num_blocks; mul_gap block_size 0; if this_m_num_blocks >= 1 then mul_gap block_size (this_m_num_blocks - 1)']}, use=['rmqb'], sig='; ', lemmas=['div_facts', 'mul_gap'], requires=['1 <= values.len < pow2 30', '0 < block_size'], ensures=[('blocks of the given array', 'rmqb_ok result values')])
LR = 'hg::lca_internal::lca_rmq'
lemma('min_id', '(d mp: vec int) (a b p: int)', ['identity mp d.len', '0 <= a', 'b <= d.len', 'min_of d mp a b p'], ['a <= p < b', 'forall k. a <= k < b -> d[p] <= d[k]'], use=['rmq'],
      body='assert { forall k. a <= k < b -> mp[k] = k }')
theory('euler', r"""
(** e: node visited at each step, d: its depth, f: first visit of each node, l: last visit of each node *)
predicate tour_by (e d f: vec int) (l: int -> int) (p: vec int) =
  e.len = d.len = 2 * p.len - 1 /\ f.len = p.len
  /\ (forall k. 0 <= k < e.len -> 0 <= e[k] < p.len)
  /\ (forall v. 0 <= v < p.len -> 0 <= f[v] <= l v < e.len /\ e[f[v]] = v)
  /\ (forall v k. 0 <= v < p.len -> 0 <= k < e.len -> (anc p v e[k] <-> f[v] <= k <= l v))
  /\ (forall v. 0 <= v < p.len - 1 -> l v + 1 < e.len /\ e[l v + 1] = p[v])
  /\ (forall k. 0 <= k < e.len -> d[k] = d[f[e[k]]])
  /\ (forall v. 0 <= v < p.len - 1 -> d[f[v]] = d[f[p[v]]] + 1)
predicate tour (e d f: vec int) (p: vec int) = exists l. tour_by e d f l p
""", deps=['cuts'])
lemma('lca_exists', '(p: vec int) (u v: int)', ['parents_up p', '0 <= u < p.len', '0 <= v < p.len'], ['is_lca p u v a', '0 <= a < p.len'], ret='(a: int)', rec=True, variant='p.len - u', use=['euler'], lemmas=['anc_root', 'anc_ge'],
      body='anc_root p v; anc_ge p u; if pure { anc p u v } then u else lca_exists p (p.elts u) v')
lemma('deeper', '(e d f: vec int) (l: int -> int) (p: vec int) (u a: int)', ['parents_up p', 'tour_by e d f l p', '0 <= u < p.len', 'anc p a u'], ['u <> a -> d[f[a]] < d[f[u]]', '0 <= a < p.len'], rec=True, variant='p.len - u', use=['euler'], body='if u <> a then deeper e d f l p (p.elts u) a')
lemma('tour_lca', '(e d f p: vec int) (u v m: int)', ['parents_up p', 'tour e d f p', '0 <= u < p.len', '0 <= v < p.len', 'f[u] < f[v]', 'f[u] <= m <= f[v]', 'forall k. f[u] <= k < f[v] -> d[m] <= d[k]'], ['is_lca p u v e[m]'],
      use=['euler'], lemmas=['lca_exists', 'deeper', 'anc_child', 'anc_ge'],
      body="""let ghost l = any int -> int ensures { tour_by e d f result p } in
  let w = lca_exists p u v in anc_ge p u; anc_ge p v; anc_ge p w; if u <> w then anc_child p w u;
  let ghost c = (if u <> w then any int ensures { u <= result < w /\\ p[result] = w /\\ anc p result u } else u) in
  assert { u <> w -> not (anc p c v) }; assert { u <> w -> f[c] <= f[u] <= l c < f[v] }; assert { anc p w e[f[u]] }; assert { w <> v };
  let ghost q = (if u <> w then l c + 1 else f.elts u) in assert { f[u] <= q < f[v] /\\ e[q] = w };
  assert { anc p w e[f[u]] /\\ anc p w e[f[v]] }; assert { f[w] <= m <= l w }; assert { anc p w e[m] }; deeper e d f l p (e.elts m) w; assert { e[m] = w }""")
theory('eulerloop', r"""
function half int int : int
val ghost half_def (i n: int) : unit ensures { half i n = div (i - n) 2 }
predicate on_stack (s: vec se) (v: int) = exists i. 0 <= i < s.len /\ s[i].se_node = v /\ s[i].se_first_visit = True
(** the item of v is above the return to its parent *)
predicate above_parent (p: vec int) (s: vec se) (i v: int) = (i = 0 /\ v = p.len - 1) \/ (0 < i /\ v < p.len - 1 /\ s[i - 1].se_node = p[v] /\ s[i - 1].se_first_visit = False)
predicate st_items (p: vec int) (vis: int -> bool) (lev l: int -> int) (s: vec se) =
  (forall i. 0 <= i < s.len -> 0 <= s[i].se_node < p.len)
  /\ (forall i. 0 <= i < s.len -> s[i].se_first_visit = True -> not (vis s[i].se_node) /\ above_parent p s i s[i].se_node)
  /\ (forall i. 0 <= i < s.len -> s[i].se_first_visit = False -> vis s[i].se_node /\ lev s[i].se_node <= i /\ l s[i].se_node < 0)
  /\ (forall i j. 0 <= i < j < s.len -> s[i].se_first_visit = True -> s[j].se_first_visit = True -> s[i].se_node <> s[j].se_node)
predicate st_nodes (p: vec int) (t: int) (e: vec int) (f: vec int) (vis: int -> bool) =
  (forall k. 0 <= k <= t -> 0 <= e[k] < p.len /\ vis e[k] /\ f[e[k]] <= k)
  /\ (forall v. vis v -> 0 <= v < p.len /\ 0 <= f[v] <= t /\ e[f[v]] = v /\ (v < p.len - 1 -> vis p[v] /\ f[p[v]] < f[v]))
predicate st_open (p: vec int) (t: int) (e: vec int) (f: vec int) (vis: int -> bool) (lev l: int -> int) (s: vec se) =
  (forall v. vis v -> l v < 0 -> 0 <= lev v < s.len /\ above_parent p s (lev v) v)
  /\ (forall v i. vis v -> l v < 0 -> lev v <= i < s.len -> anc p v s[i].se_node)
  /\ (forall v k. vis v -> l v < 0 -> f[v] <= k <= t -> anc p v e[k])
  /\ (forall v x. vis v -> vis x -> anc p v x -> v <> x -> lev v < lev x)
predicate returned (p: vec int) (t: int) (e: vec int) (l: int -> int) (s: vec se) (v: int) =
  (l v = t /\ 0 < s.len /\ s[s.len - 1].se_node = p[v] /\ s[s.len - 1].se_first_visit = False) \/ (l v < t /\ e[l v + 1] = p[v])
predicate st_done (p: vec int) (t: int) (e: vec int) (f: vec int) (vis: int -> bool) (l: int -> int) (s: vec se) =
  (forall v. 0 <= l v -> vis v /\ f[v] <= l v <= t /\ (v < p.len - 1 -> returned p t e l s v))
  /\ (forall v k. 0 <= l v -> 0 <= k <= t -> (f[v] <= k <= l v <-> anc p v e[k]))
  /\ (forall v i. 0 <= l v -> 0 <= i < s.len -> not (anc p v s[i].se_node))
predicate st_pushed (p: vec int) (vis psh: int -> bool) (s: vec se) =
  (forall v. psh v <-> 0 <= v < p.len /\ (v = p.len - 1 \/ vis p[v])) /\ (forall v. psh v -> vis v \/ on_stack s v)
predicate st_depth (p: vec int) (t: int) (e d f: vec int) (vis: int -> bool) =
  (forall k. 0 <= k <= t -> d[k] = d[f[e[k]]]) /\ (forall v. vis v -> v < p.len - 1 -> d[f[v]] = d[f[p[v]]] + 1) /\ (vis (p.len - 1) -> d[f[p.len - 1]] = 0)
predicate st (p: vec int) (t: int) (e f: vec int) (vis: int -> bool) (lev l: int -> int) (s: vec se) =
  st_items p vis lev l s /\ st_nodes p t e f vis /\ st_open p t e f vis lev l s /\ st_done p t e f vis l s
predicate same_upto (a b: vec int) (t: int) = a.len = b.len /\ forall k. 0 <= k <= t -> a[k] = b[k]
predicate same_stack (a b: vec se) (n: int) = forall k. 0 <= k < n -> a[k] = b[k]
predicate sons_pushed (s: vec se) (n x: int) (c: vec int) (m: int) = s.len = n + 2 * m /\ forall j k. 0 <= j < m -> k = n + 2 * j -> s[k].se_node = x /\ s[k].se_first_visit = False /\ s[k + 1].se_node = c[j] /\ s[k + 1].se_first_visit = True
predicate new_son (s: vec se) (n x: int) (c: vec int) (i j: int) = (i = n + 2 * j /\ s[i].se_node = x /\ s[i].se_first_visit = False) \/ (i = n + 2 * j + 1 /\ s[i].se_node = c[j] /\ s[i].se_first_visit = True)
predicate pushed_upto (c: vec int) (m v: int) = exists j. 0 <= j < m /\ c[j] = v
predicate sons_of (p: vec int) (x: int) (c: vec int) = (forall j. 0 <= j < c.len -> 0 <= c[j] < p.len - 1 /\ p[c[j]] = x) /\ (forall i j. 0 <= i < j < c.len -> c[i] < c[j]) /\ forall u. 0 <= u < p.len - 1 -> p[u] = x -> pushed_upto c c.len u
""", recs=['se'], deps=['euler', 'subtree_count'])
SV = '(vis: int -> bool) (lev l: int -> int)'
lemma('up_vis', '(p: vec int) (t: int) (e f: vec int) (vis: int -> bool) (v: int)', ['parents_up p', 'st_nodes p t e f vis', 'vis v'], ['forall a. anc p a v -> vis a /\\ f[a] <= f[v] /\\ (a <> v -> f[a] < f[v])'], rec=True, variant='p.len - v', use=['eulerloop'],
      body='if v < p.len - 1 then up_vis p t e f vis (p.elts v)')
lemma('tour_back', '(p: vec int) (t: int) (e e1 f: vec int) ' + SV + " (l1: int -> int) (s s1: vec se) (x: int)",
      ['parents_up p', '-1 <= t', 'st p t e f vis lev l s', '1 <= s.len', 's1.len = s.len - 1', 'same_stack s s1 s1.len', 's[s.len - 1].se_node = x', 's[s.len - 1].se_first_visit = False', 'same_upto e e1 t', 'e1[t + 1] = x',
       'forall v. l1 v = (if v = x && lev x = s1.len then t + 1 else l v)'],
      ['st p (t + 1) e1 f vis lev l1 s1'], use=['eulerloop'], lemmas=['up_vis', 'anc_ge', 'anc_root'],
      body="""up_vis p t e f vis x; anc_ge p x;
  assert { st_items p vis lev l1 s1 }; assert { st_nodes p (t + 1) e1 f vis };
  let lemma top (v: int) requires { vis v /\\ l1 v < 0 } ensures { l v < 0 /\\ lev v < s1.len } = assert { l v < 0 && lev v <= s1.len }; if lev v = s1.len then begin assert { anc p v x }; assert { lev x <= s1.len }; assert { v = x } end in
  assert { forall v. vis v -> l1 v < 0 -> 0 <= lev v < s1.len /\\ above_parent p s1 (lev v) v };
  assert { forall v k. vis v -> l1 v < 0 -> f[v] <= k <= t + 1 -> anc p v e1[k] by if k = t + 1 then anc p v x else anc p v e[k] };
  assert { st_open p (t + 1) e1 f vis lev l1 s1 };
  let lemma before (k: int) requires { 0 <= k <= t } ensures { forall a. anc p a e[k] -> vis a /\\ f[a] <= k } = up_vis p t e f vis (e.elts k) in
  let lemma below (i: int) requires { 0 <= i < s1.len /\\ i < lev x } ensures { not (anc p x s1[i].se_node) } = let y = (s1.elts i).se_node in assert { s[i] = s1[i] };
    if (s1.elts i).se_first_visit then begin assert { y <> x }; if y < p.len - 1 then begin assert { s[i - 1].se_node = p[y] }; assert { anc p x y -> anc p x p[y] } end else anc_ge p y end else assert { lev y <= i } in
  assert { forall v. 0 <= l1 v -> vis v /\\ f[v] <= l1 v <= t + 1 /\\ (v < p.len - 1 -> returned p (t + 1) e1 l1 s1 v) };
  assert { forall v k. 0 <= l1 v -> 0 <= k <= t + 1 -> (f[v] <= k <= l1 v <-> anc p v e1[k]) by if k = t + 1 then e1[k] = x else e1[k] = e[k] };
  assert { forall v i. 0 <= l1 v -> 0 <= i < s1.len -> not (anc p v s1[i].se_node) by s1[i] = s[i] };
  assert { st_done p (t + 1) e1 f vis l1 s1 }""")
lemma('tour_visit', '(p: vec int) (t: int) (e e1 f f1: vec int) ' + SV + " (vis1: int -> bool) (lev1 l1: int -> int) (s s1: vec se) (x: int) (c: vec int)",
      ['parents_up p', '-1 <= t', 'st p t e f vis lev l s', '1 <= s.len', 's[s.len - 1].se_node = x', 's[s.len - 1].se_first_visit = True', 'same_stack s s1 (s.len - 1)', 'sons_pushed s1 (s.len - 1) x c c.len', '0 <= c.len', 'sons_of p x c', 'same_upto e e1 t', 'e1[t + 1] = x',
       'f1.len = f.len', 'forall v. f1[v] = (if v = x then t + 1 else f[v])', 'forall v. vis1 v <-> vis v \\/ v = x', 'forall v. lev1 v = (if v = x then s.len - 1 else lev v)', 'forall v. l1 v = (if v = x then (if c.len = 0 then t + 1 else -1) else l v)'],
      ['st p (t + 1) e1 f1 vis1 lev1 l1 s1'], use=['eulerloop'], lemmas=['up_vis', 'anc_ge', 'anc_root'],
      body="""anc_ge p x; if x < p.len - 1 then up_vis p t e f vis (p.elts x);
  let ghost n = s.len - 1 in let ghost m = c.len in assert { s1.len = n + 2 * m };
  assert { not (vis x) }; assert { forall j. 0 <= j < m -> not (vis c[j]) /\\ c[j] <> x };
  let lemma old_item (i: int) requires { 0 <= i < n } ensures { s1[i] = s[i] /\\ 0 <= s[i].se_node < p.len /\\ (s[i].se_first_visit = True -> s[i].se_node <> x /\\ forall j. 0 <= j < m -> s[i].se_node <> c[j]) } = () in
  let lemma new_item (i: int) requires { n <= i < s1.len } ensures { 0 <= half i n < m /\\ new_son s1 n x c i (half i n) } = half_def i n; let j = half i n in assert { 0 <= j < m /\\ (i = n + 2 * j \\/ i = n + 2 * j + 1) }; assert { new_son s1 n x c i j } in
  assert { forall i. 0 <= i < s1.len -> 0 <= s1[i].se_node < p.len };
  let lemma tr (i: int) requires { 0 <= i < s1.len /\\ s1[i].se_first_visit = True } ensures { not (vis1 s1[i].se_node) /\\ above_parent p s1 i s1[i].se_node } =
    if i < n then begin assert { above_parent p s i s[i].se_node }; assert { i > 0 -> s1[i - 1] = s[i - 1] } end else begin new_item i; let ghost j = half i n in assert { i - 1 = n + 2 * j } end in
  let lemma fa (i: int) requires { 0 <= i < s1.len /\\ s1[i].se_first_visit = False } ensures { vis1 s1[i].se_node /\\ lev1 s1[i].se_node <= i /\\ l1 s1[i].se_node < 0 } =
    if i >= n then begin new_item i; let ghost j = half i n in assert { s1[i].se_node = x } end else assert { s[i].se_node <> x } in
  let lemma di (i j: int) requires { 0 <= i < j < s1.len /\\ s1[i].se_first_visit = True /\\ s1[j].se_first_visit = True } ensures { s1[i].se_node <> s1[j].se_node } =
    if j >= n then begin new_item j; let ghost b = half j n in assert { s1[j].se_node = c[b] }; if i >= n then begin new_item i; let ghost a = half i n in assert { s1[i].se_node = c[a] }; assert { a < b } end end in
  assert { st_items p vis1 lev1 l1 s1 }; assert { st_nodes p (t + 1) e1 f1 vis1 };
  assert { above_parent p s n x }; assert { x < p.len - 1 -> vis p[x] /\\ lev p[x] <= n - 1 };
  let lemma up (v: int) requires { vis v /\\ anc p v x } ensures { lev v < n } = assert { v <> x }; assert { anc p v p[x] } in
  let lemma top (v: int) requires { vis v /\\ l v < 0 } ensures { 0 <= lev v < n } = if lev v = n then begin assert { anc p v x } end in
  let lemma o1 (v: int) requires { vis1 v /\\ l1 v < 0 } ensures { 0 <= lev1 v < s1.len /\\ above_parent p s1 (lev1 v) v } = if v = x then begin assert { m > 0 }; assert { n > 0 -> s1[n - 1] = s[n - 1] }; assert { above_parent p s1 n x }; assert { lev1 v = n } end else begin assert { above_parent p s (lev v) v }; assert { lev v > 0 -> s1[lev v - 1] = s[lev v - 1] }; assert { above_parent p s1 (lev v) v }; assert { lev1 v = lev v } end in
  let lemma o2 (v i: int) requires { vis1 v /\\ l1 v < 0 /\\ lev1 v <= i < s1.len } ensures { anc p v s1[i].se_node } = assert { v <> x -> anc p v s[n].se_node }; assert { anc p v x };
    if i >= n then begin new_item i; let ghost j = half i n in assert { p[c[j]] = x }; assert { c[j] <> x }; assert { anc p v c[j] }; assert { s1[i].se_node = x \\/ s1[i].se_node = c[j] } end else assert { v <> x } in
  let lemma o3 (v k: int) requires { vis1 v /\\ l1 v < 0 /\\ f1[v] <= k <= t + 1 } ensures { anc p v e1[k] } = if k = t + 1 then begin assert { v <> x -> anc p v s[n].se_node }; assert { anc p v x }; assert { e1[k] = x } end else begin assert { v <> x }; assert { f1[v] = f[v] }; assert { anc p v e[k] }; assert { e1[k] = e[k] } end in
  let lemma o4 (v y: int) requires { vis1 v /\\ vis1 y /\\ anc p v y /\\ v <> y } ensures { lev1 v < lev1 y } = if y = x then up v else begin up_vis p t e f vis y; assert { v <> x } end in
  assert { st_open p (t + 1) e1 f1 vis1 lev1 l1 s1 };
  let lemma d1 (v: int) requires { 0 <= l1 v } ensures { vis1 v /\\ f1[v] <= l1 v <= t + 1 /\\ (v < p.len - 1 -> returned p (t + 1) e1 l1 s1 v) } = if v = x then begin assert { m = 0 }; assert { n > 0 -> s1[n - 1] = s[n - 1] } end else begin assert { l v = t -> v < p.len - 1 -> false } end in
  let lemma before (k: int) requires { 0 <= k <= t } ensures { forall a. anc p a e[k] -> vis a /\\ f[a] <= k } = up_vis p t e f vis (e.elts k) in
  let lemma d2 (v k: int) requires { 0 <= l1 v /\\ 0 <= k <= t + 1 } ensures { f1[v] <= k <= l1 v <-> anc p v e1[k] } = if k = t + 1 then begin assert { v <> x -> not (anc p v s[n].se_node) } end else begin assert { e1[k] = e[k] }; assert { not (anc p x e[k]) } end in
  let lemma unseen (i: int) requires { 0 <= i < n } ensures { not (anc p x s[i].se_node) } = let y = (s.elts i).se_node in
    if (s.elts i).se_first_visit then begin assert { y <> x }; assert { above_parent p s i y }; if y < p.len - 1 then begin assert { vis p[y] }; up_vis p t e f vis (p.elts y); assert { anc p x y -> anc p x p[y] } end else anc_ge p y end else up_vis p t e f vis y in
  let lemma d3 (v i: int) requires { 0 <= l1 v /\\ 0 <= i < s1.len } ensures { not (anc p v s1[i].se_node) } =
    if i < n then begin if v = x then unseen i else assert { s1[i] = s[i] } end else begin new_item i; let ghost j = half i n in assert { v <> x }; assert { not (anc p v s[n].se_node) }; assert { vis v }; assert { v <> c[j] } end in
  assert { st_done p (t + 1) e1 f1 vis1 l1 s1 }""")
lemma('tour_init', '(p: vec int) (e f: vec int) ' + SV + ' (psh: int -> bool) (d: vec int) (s: vec se)', ['parents_up p', 'no_node vis', 'forall v. l v = -1', 's.len = 1', 's[0].se_node = p.len - 1', 's[0].se_first_visit = True', 'forall v. psh v <-> v = p.len - 1'],
      ['st p (-1) e f vis lev l s', 'st_pushed p vis psh s', 'st_depth p (-1) e d f vis'], use=['eulerloop'])
lemma('tour_end', '(p: vec int) (t: int) (e d f: vec int) ' + SV + ' (psh: int -> bool) (s: vec se)', ['parents_up p', 'st p t e f vis lev l s', 'st_pushed p vis psh s', 'st_depth p t e d f vis', 's.len = 0', 't + 1 = 2 * cntb psh p.len - 1',
       'e.len = 2 * p.len - 1', 'd.len = e.len', 'f.len = p.len'],
      ['tour_by e d f l p', 'tour e d f p'], use=['eulerloop'], lemmas=['cntb_full'],
      body="""let rec lemma all (v: int) requires { 0 <= v < p.len } ensures { vis v } variant { p.len - v } = if v < p.len - 1 then all (p.elts v); assert { psh v } in
  cntb_full psh p.len; assert { t = e.len - 1 }; assert { forall v. 0 <= v < p.len -> 0 <= l v }; assert { forall v k. 0 <= v < p.len -> 0 <= k < e.len -> (anc p v e[k] <-> f[v] <= k <= l v) };
  assert { forall v. 0 <= v < p.len - 1 -> returned p t e l s v }""")
lemma('cntb_full', '(a: int -> bool) (k: int)', ['0 <= k', 'forall v. 0 <= v < k -> a v'], ['cntb a k = k'], body='if k > 0 then cntb_full a (k - 1)', rec=True, variant='k', use=['subtree_count'])
lemma('sons_children', '(p: vec int) (nl: int) (ch: vec (vec int)) (pos: int -> int) (x: int) (c: vec int)', ['parents_ok p nl', 'children_ok p nl ch pos', '0 <= x < p.len', 'x < nl -> c.len = 0', 'x >= nl -> c = ch[x - nl]'], ['sons_of p x c', '0 <= c.len'], use=['eulerloop'],
      body='let ghost w = x - nl in assert { x >= nl -> lists_children p pos (w + nl) ch[w] }; assert { forall u. 0 <= u < p.len - 1 -> p[u] = x -> 0 <= pos u < c.len /\\ c[pos u] = u }')
lemma('depth_step', '(p: vec int) (t: int) (e e1 d d1 f f1: vec int) (vis vis1: int -> bool) (x: int)', ['parents_up p', '-1 <= t', 'st_nodes p t e f vis', 'st_depth p t e d f vis', '0 <= x < p.len', 'x < p.len - 1 -> vis p[x]', 'same_upto e e1 t', 'e1[t + 1] = x', 'same_upto d d1 t',
       'd1[t + 1] = (if x = p.len - 1 then 0 else d[f[p[x]]] + 1)', '(vis x /\\ (forall v. f1[v] = f[v]) /\\ (forall v. vis1 v <-> vis v)) \\/ (not (vis x) /\\ (forall v. f1[v] = (if v = x then t + 1 else f[v])) /\\ (forall v. vis1 v <-> vis v \\/ v = x))'],
      ['st_depth p (t + 1) e1 d1 f1 vis1'], use=['eulerloop'], body="""assert { forall v. vis v -> d1[f1[v]] = d[f[v]] }; assert { d1[f1[x]] = d1[t + 1] }; assert { forall k. 0 <= k <= t -> d1[k] = d1[f1[e1[k]]] by e1[k] = e[k] && d1[k] = d[k] };
  assert { forall v. vis1 v -> v < p.len - 1 -> d1[f1[v]] = d1[f1[p[v]]] + 1 by if v = x then true else vis v && vis p[v] && d[f[v]] = d[f[p[v]]] + 1 }""")
lemma('pushed_visit', '(p: vec int) (vis vis1 psh psh1: int -> bool) (s s1: vec se) (x: int) (c: vec int)', ['parents_up p', '1 <= s.len', 's[s.len - 1].se_node = x', 'same_stack s s1 (s.len - 1)', 'sons_pushed s1 (s.len - 1) x c c.len', '0 <= c.len', 'sons_of p x c',
       'st_pushed p vis psh s', 'forall v. vis1 v <-> vis v \\/ v = x', 'forall v. psh1 v <-> psh v \\/ pushed_upto c c.len v'], ['st_pushed p vis1 psh1 s1'], use=['eulerloop'],
      body="""let n = s.len - 1 in assert { s1.len = n + 2 * c.len }; assert { forall v. pushed_upto c c.len v <-> 0 <= v < p.len - 1 /\\ p[v] = x };
  let lemma old_ (v: int) requires { on_stack s v /\\ v <> x } ensures { on_stack s1 v } = let ghost i = any int ensures { 0 <= result < s.len /\\ s[result].se_node = v /\\ s[result].se_first_visit = True } in assert { s1[i] = s[i] } in
  let lemma new_ (v: int) requires { pushed_upto c c.len v } ensures { on_stack s1 v } = let ghost j = any int ensures { 0 <= result < c.len /\\ c[result] = v } in let ghost k = n + 2 * j in assert { s1[k + 1].se_node = v /\\ s1[k + 1].se_first_visit = True } in ()""")
lemma('pushed_back', '(p: vec int) (vis psh: int -> bool) (s s1: vec se)', ['1 <= s.len', 's[s.len - 1].se_first_visit = False', 's1.len = s.len - 1', 'same_stack s s1 s1.len', 'st_pushed p vis psh s'], ['st_pushed p vis psh s1'], use=['eulerloop'],
      body="""let lemma old_ (v: int) requires { on_stack s v } ensures { on_stack s1 v } = let ghost i = any int ensures { 0 <= result < s.len /\\ s[result].se_node = v /\\ s[result].se_first_visit = True } in assert { s1[i] = s[i] } in ()""")
E_, D_, F_ = ['this.lca_rmq_m_' + x for x in ('tree_Euler_tour_map', 'tree_Euler_tour_depth', 'first_visit_in_Euler_tour')]
for w, sig in (('lcab_tour', 'block<long>>::'), ('lca_tour', '_table<long>>::')):
  fn(LR + '::compute_Euler_tour', w, sig=sig, use=['tree', 'eulerloop'], lemmas=['tour_init', 'tour_end', 'tour_visit', 'tour_back', 'sons_children', 'depth_step', 'pushed_visit', 'pushed_back', 'cntb_set', 'cntb_none', 'cntb_sub'],
   requires=['tree_ok tree', '1 <= tree.tree_parents.len', E_ + '.len = 2 * tree.tree_parents.len - 1', D_ + '.len = 2 * tree.tree_parents.len - 1', F_ + '.len = tree.tree_parents.len'],
   ensures=[('Euler tour of the tree', 'tour %s %s %s tree.tree_parents' % (E_, D_, F_))],
   at={'decl:nbr': ['let ghost p = tree.tree_parents in', 'let ghost pos = any int -> int ensures { children_ok p tree.tree_num_leaves tree.tree_children result } in', 'let ghost ref vis = (fun (_: int) -> False) in let ghost ref lev = (fun (_: int) -> 0) in let ghost ref l = (fun (_: int) -> -1) in let ghost ref psh = (fun (_: int) -> False) in'],
       'loop1.pre': ['let ghost none = psh in psh <- Map.set psh (p.len - 1) True', 'cntb_none none p.len; cntb_set none psh (p.len - 1) p.len', 'tour_init p %s %s vis lev l psh %s stack' % (E_, F_, D_)],
       'loop1.begin': ['let ghost t0 = nbr in let ghost e0 = %s in let ghost d0 = %s in let ghost f0 = %s in let ghost s0 = stack in let ghost vis0 = vis in let ghost lev0 = lev in let ghost l0 = l in let ghost psh0 = psh in' % (E_, D_, F_), 'let ghost x = (stack.elts (stack.len - 1)).se_node in',
                       'cntb_sub psh psh p.len', 'assert { x < p.len - 1 -> vis p[x] }', 'assert { x < p.len - 1 -> 0 <= f0[p[x]] <= t0 }', 'assert { s0[s0.len - 1].se_first_visit = True <-> not (vis x) }'],
       'loop2.pre': ['sons_children p tree.tree_num_leaves tree.tree_children pos x c', 'vis <- Map.set vis x True; lev <- Map.set lev x stack.len; l <- Map.set l x (if c.len = 0 then nbr else -1)'],
       'loop2.end': ['let ghost psh1 = psh in psh <- Map.set psh son True', 'assert { not (pushed_upto c (son_it - 1) son) }; assert { not (psh0 son) }', 'cntb_set psh1 psh son p.len', 'assert { forall v. pushed_upto c son_it v <-> pushed_upto c (son_it - 1) v \\/ v = son }'],
       'loop2.post': ['tour_visit p t0 e0 %s f0 %s vis0 lev0 l0 vis lev l s0 stack x c' % (E_, F_), 'pushed_visit p vis0 vis psh0 psh s0 stack x c'],
       'loop1.end': ['if not e.se_first_visit then begin if lev x = stack.len then l <- Map.set l x nbr; tour_back p t0 e0 %s %s vis lev l0 l s0 stack x; pushed_back p vis psh s0 stack end' % (E_, F_), 'depth_step p t0 e0 %s d0 %s f0 %s vis0 vis x' % (E_, D_, F_)],
       'loop1.post': ['tour_end p nbr %s %s %s vis lev l psh stack' % (E_, D_, F_)]},
   loops={1: dict(inv=['0 <= stack.len', '-1 <= nbr', 'nbr + 1 + stack.len = 2 * cntb psh p.len - 1', 'st p nbr %s %s vis lev l stack' % (E_, F_), 'st_pushed p vis psh stack', 'st_depth p nbr %s %s %s vis' % (E_, D_, F_)], var='2 * p.len - nbr'),
          2: dict(inv=['0 <= son_it <= c.len', 'sons_pushed stack (s0.len - 1) x c son_it', 'same_stack s0 stack (s0.len - 1)', 'nbr + 1 + stack.len = 2 * cntb psh p.len - 1', 'forall v. psh v <-> psh0 v \\/ pushed_upto c son_it v'], var='c.len - son_it')})
BT_, TT_ = ['hg::lca_internal::lca_rmq<hg::tree_internal::tree, hg::range_minimum_query_internal::rmq_sparse_table%s<long>>' % x for x in ('_block', '')]
for th, rec, ok in (('lcab', BT_, 'rmqb_ok'), ('lcat', TT_, 'rmq_ok')):
    theory(th, r"""
predicate lca_ok (q: lca_rmq) (p: vec int) = parents_up p /\ p.len < pow2 28 /\ tour q.lca_rmq_m_tree_Euler_tour_map q.lca_rmq_m_tree_Euler_tour_depth q.lca_rmq_m_first_visit_in_Euler_tour p /\ %s q.lca_rmq_m_rmq_solver q.lca_rmq_m_tree_Euler_tour_depth%s
""" % (ok, '' if ok == 'rmqb_ok' else ' /\\ identity (rmq_map q.lca_rmq_m_rmq_solver) q.lca_rmq_m_tree_Euler_tour_depth.len'), recs=[rec], deps=['rmqb' if ok == 'rmqb_ok' else 'rmq', 'euler'])
PW = 'pow2_def 27; pow2_def 28; pow2_def 29; pow2_pos 27'
TP = 'tree.tree_parents'
for w, sig, th in (('lcab_new', r'block<long>>::lca_rmq\([^;]*\)$', 'lcab'), ('lcab_new2', r'block<long>>::lca_rmq\(.*;', 'lcab'), ('lca_new', r'_table<long>>::lca_rmq\([^;]*\)$', 'lcat')):
    fn(LR + '::lca_rmq', w, sig=sig, use=['tree', th], lemmas=['pow2_pos'], requires=['tree_ok tree', '1 <= %s.len < pow2 28' % TP] + (['0 < args'] if w == 'lcab_new2' else []), at={'entry': [PW]},
       ensures=[('ready for the queries', 'lca_ok result %s' % TP)])
DD = 'this.lca_rmq_m_tree_Euler_tour_depth'
for th, pre, tab, q in (('lcab', 'lcab', '_block<long>>', 'rmqb_query'), ('lcat', 'lca', '_table<long>>', 'rmq_query')):
    fn(LR + '::lca', pre + '_lca', sig=tab + r'::lca\(long; long', use=[th], lemmas=['tour_lca', 'anc_ge'] + (['min_id'] if th == 'lcat' else []), requires=['exists p. lca_ok this p /\\ 0 <= n1 < p.len /\\ 0 <= n2 < p.len'],
       ensures=[('the lowest common ancestor', 'forall p. lca_ok this p -> 0 <= n1 < p.len -> 0 <= n2 < p.len -> is_lca p n1 n2 result /\\ 0 <= result < p.len')],
       at={'entry': ['let ghost p = any vec int ensures { lca_ok this result /\\ 0 <= n1 < result.len /\\ 0 <= n2 < result.len } in', 'anc_ge p n1'],
           'call:' + q: ['let ghost e = this.lca_rmq_m_tree_Euler_tour_map in let ghost d = this.lca_rmq_m_tree_Euler_tour_depth in let ghost f = this.lca_rmq_m_first_visit_in_Euler_tour in let ghost m = r_%s in' % q,
                         *(['min_id d (rmq_map this.lca_rmq_m_rmq_solver) ii jj m'] if th == 'lcat' else []), 'assert { f[n1] <> f[n2] }; assert { ii <= m <= jj }; assert { forall k. ii <= k < jj -> d[m] <= d[k] }',
                         'let lemma all_ (q: vec int) requires { lca_ok this q /\\ 0 <= n1 < q.len /\\ 0 <= n2 < q.len } ensures { is_lca q n1 n2 e[m] /\\ 0 <= e[m] < q.len } = if f.elts n1 < f.elts n2 then tour_lca e d f q n1 n2 m else begin tour_lca e d f q n2 n1 m end in']},
       )

for th, pre, tab in (('lcab', 'lcab', '_block<long>>'), ('lcat', 'lca', '_table<long>>')):
    for suf, sig, ok, n, a, b in (('pairs', r'::lca\(const hg::iterator_wrapper[^)]*\)$', '', 'range_.len', 'range_[j].edge_source', 'range_[j].edge_target'),
                              ('arr', r'::lca\(const xt::[^;)]*; [^;)]*\)$', '', 'xvertices1.len', 'xvertices1[j]', 'xvertices2[j]')):
        inp = '(forall j. 0 <= j < %s -> 0 <= %s < q.len /\\ 0 <= %s < q.len)' % (n, a, b)
        fn(LR + '::lca', pre + '_lca_' + suf, sig=tab + sig, use=[th], requires=['exists q. lca_ok this q /\\ ' + inp] + (['xvertices1.len = xvertices2.len'] if suf == 'arr' else []),
           ensures=[('one node per pair', 'result.len = ' + n), ('the lowest common ancestor of each pair', 'forall q. lca_ok this q -> %s -> forall j. 0 <= j < %s -> is_lca q (%s) (%s) result[j] /\\ 0 <= result[j] < q.len' % (inp, n, a, b))],
           at={'entry': ['let ghost p = any vec int ensures { (lca_ok this result /\\ %s) } in' % inp.replace('q.len', 'result.len')]},
           loops={1: dict(inv=['0 <= i <= ' + n, 'result_.len = ' + n, 'forall q. lca_ok this q -> %s -> forall j. 0 <= j < i -> is_lca q (%s) (%s) result_[j] /\\ 0 <= result_[j] < q.len' % (inp, a, b)])})

# saliency map
lemma('lca_uniq', '(p: vec int) (u v a b: int)', ['parents_up p', '0 <= u < p.len', 'is_lca p u v a', 'is_lca p u v b'], ['a = b'], use=['cuts'], lemmas=['anc_ge'],
      body='anc_ge p u; anc_ge p a; anc_ge p b')
EG = lambda v: '(forall j. 0 <= j < graph.ug_edges.len -> 0 <= graph.ug_edges[j].edge_source < %s /\\ 0 <= graph.ug_edges[j].edge_target < %s)' % (v, v)
fn('hg::saliency_map', 'saliency_map', use=['tree', 'ug', 'lcab'], lemmas=['lca_uniq'],
   at={'call:lcab_lca_pairs': ["let lemma all_ (j a: int) requires { 0 <= j < graph.ug_edges.len } requires { is_lca tree.tree_parents graph.ug_edges[j].edge_source graph.ug_edges[j].edge_target a } ensures { r_lcab_lca_pairs[j] = a } = lca_uniq tree.tree_parents (graph.ug_edges.elts j).edge_source (graph.ug_edges.elts j).edge_target a (r_lcab_lca_pairs.elts j) in"]},
   requires=['ug_ok graph', 'tree_ok tree', '1 <= tree.tree_parents.len < pow2 28', EG('tree.tree_parents.len'), 'xaltitudes.len = tree.tree_parents.len'],
   ensures=[('one value per edge', 'result.len = graph.ug_edges.len'), ('altitude of the lowest common ancestor', 'forall j a. 0 <= j < graph.ug_edges.len -> is_lca tree.tree_parents graph.ug_edges[j].edge_source graph.ug_edges[j].edge_target a -> result[j] = xaltitudes[a]')])
prop('C26', ['saliency_map'], harness='C26.cpp')
prop('C10', ['lcab_new', 'lcab_new2', 'lca_new', 'lcab_lca', 'lca_lca', 'lcab_lca_pairs', 'lca_lca_pairs', 'lcab_lca_arr', 'lca_lca_arr'], harness='C10.cpp')
