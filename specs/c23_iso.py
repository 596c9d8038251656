# tree isomorphism
theory('iso', r'''
predicate in_img (g: int -> int) (n w: int) = exists v. 0 <= v < n /\ g v = w
(** g is a bijection from the nodes of p to the nodes of q fixing the leaves and preserving the parent relation *)
predicate is_iso (p q: vec int) (nl: int) (g: int -> int) = (forall l. 0 <= l < nl -> g l = l) /\ (forall v. 0 <= v < p.len -> 0 <= g v < q.len /\ g p[v] = q[g v]) /\
  (forall u v. 0 <= u < v < p.len -> g u <> g v) /\ forall w. 0 <= w < q.len -> in_img g p.len w
predicate isomorphic (p: vec int) (nl: int) (q: vec int) (nl2: int) = p.len = q.len /\ nl = nl2 /\ exists g. is_iso p q nl g
predicate child_before (p: vec int) (k v: int) = exists u. 0 <= u < k /\ p[u] = v
(** the mapping f built from the nodes below k *)
predicate iso_upto (p q: vec int) (nl: int) (f: vec int) (k: int) = f.len = p.len /\ (forall v. 0 <= v < k -> 0 <= f[v] < q.len /\ f[p[v]] = q[f[v]]) /\ (forall l. 0 <= l < nl -> l < k -> f[l] = l) /\
  (forall v. 0 <= v < p.len -> (f[v] = -1 \/ 0 <= f[v] < q.len)) /\ (forall v. nl <= v < p.len -> child_before p k v -> f[v] <> -1) /\ (forall v. k <= v < p.len -> f[v] <> -1 -> child_before p k v) /\
  forall g. is_iso p q nl g -> forall v. 0 <= v < p.len -> f[v] <> -1 -> f[v] = g v
''', deps=['tree'])
lemma('inj_onto', '(h: int -> int) (n: int)', ['0 <= n', 'forall i. 0 <= i < n -> 0 <= h i < n', 'forall i j. 0 <= i < j < n -> h i <> h j'], ['forall w. 0 <= w < n -> in_img h n w'],
      body='if n > 0 then begin let ghost k = h (n - 1) in let ghost h2 = pure { fun i -> if h i = n - 1 then k else h i } in inj_onto h2 (n - 1); assert { in_img h n k }; '
           'assert { k <> n - 1 -> in_img h2 (n - 1) k }; assert { forall i. 0 <= i < n - 1 -> h2 i = k -> h i = n - 1 }; assert { in_img h n (n - 1) }; assert { forall w. 0 <= w < n - 1 -> w <> k -> in_img h2 (n - 1) w && in_img h n w } end', rec=True, variant='n', use=['iso'])
lemma('iso_onto', '(p q: vec int) (nl: int) (f: int -> int) (k: int)', ['parents_ok p nl', 'parents_ok q nl', 'p.len = q.len', '0 <= k <= q.len', 'forall l. 0 <= l < nl -> f l = l', 'forall v. 0 <= v < p.len -> 0 <= f v < q.len /\\ f p[v] = q[f v]'],
      ['forall w. 0 <= w < k -> 0 <= h w < p.len /\\ f (h w) = w'], ret='(h: int -> int)',
      body='if k <= 0 then pure { fun (x: int) -> x } else begin let ghost h = iso_onto p q nl f (k - 1) in if k - 1 < nl then pure { Map.set h (k - 1) (k - 1) } else begin assert { has_child q (k - 1) }; '
           'let ghost c = any int ensures { 0 <= result < q.len - 1 /\\ q[result] = k - 1 } in assert { c < k - 1 }; pure { Map.set h (k - 1) (p[h c]) } end end', rec=True, variant='k', use=['iso'])
lemma('iso_end', '(p q: vec int) (nl: int) (f: vec int)', ['parents_ok p nl', 'parents_ok q nl', 'p.len = q.len', 'iso_upto p q nl f p.len'], ['isomorphic p nl q nl'],
      body='let ghost h = iso_onto p q nl f.elts q.len in inj_onto h q.len; assert { forall w. 0 <= w < q.len -> 0 <= h w < p.len && f.elts (h w) = w && in_img f.elts p.len w }; assert { forall i j. 0 <= i < j < q.len -> h i <> h j }; assert { forall u. 0 <= u < p.len -> in_img h p.len u && h f[u] = u }; assert { is_iso p q nl f.elts }', use=['iso'], lemmas=['iso_onto', 'inj_onto'])
IS = '(p q: vec int) (nl: int) (f0 f: vec int) (i a: int)'
ISR = ['parents_ok p nl', 'parents_ok q nl', 'p.len = q.len', '0 <= i < p.len', 'iso_upto p q nl f0 i', 'f.len = f0.len', 'a = (if i < nl then i else f0[i])', '0 <= a < q.len', 'f[i] = a', 'f[p[i]] = q[a]', 'p[i] <> i -> f0[p[i]] = -1 \\/ f0[p[i]] = q[a]', 'forall v. 0 <= v < p.len -> v <> i -> v <> p[i] -> f[v] = f0[v]']
lemma('iso_before', '(p: vec int) (i: int)', ['0 <= i'], ['forall v. child_before p (i + 1) v <-> child_before p i v \\/ v = p[i]'], use=['iso'])
lemma('iso_kept', IS, ISR, ['forall v. 0 <= v < p.len -> f0[v] <> -1 -> f[v] = f0[v]', 'forall v. 0 <= v < p.len -> f[v] <> -1 -> f0[v] <> -1 \\/ v = i \\/ v = p[i]', 'i < p.len - 1 -> nl <= p[i] && i < p[i] < p.len', 'nl <= i -> f0[i] <> -1', '0 <= q[a] < q.len'],
      body='assert { nl <= i -> has_child p i && child_before p i i }', use=['iso'])
lemma('iso_step_img', IS, ISR, ['forall g. is_iso p q nl g -> forall v. 0 <= v < p.len -> f[v] <> -1 -> f[v] = g v'],
      body='iso_kept p q nl f0 f i a; assert { forall g. is_iso p q nl g -> a = g i }; assert { forall g. is_iso p q nl g -> q[a] = g p[i] }', use=['iso'], lemmas=['iso_kept'])
lemma('iso_step', IS, ISR, ['iso_upto p q nl f (i + 1)'],
      body='iso_kept p q nl f0 f i a; iso_before p i; iso_step_img p q nl f0 f i a; assert { forall v. 0 <= v < i -> f0[v] <> -1 /\\ f0[p[v]] <> -1 }; assert { forall v. 0 <= v < i + 1 -> 0 <= f[v] < q.len /\\ f[p[v]] = q[f[v]] }', use=['iso'], lemmas=['iso_kept', 'iso_before', 'iso_step_img'])
P1 = 't1.tree_parents'; P2 = 't2.tree_parents'; NL1 = 't1.tree_num_leaves'
fn('hg::test_tree_isomorphism', 'iso', use=['iso'], lemmas=['iso_end', 'iso_step'], requires=['tree_ok t1', 'tree_ok t2'], ensures=[('true iff there is an isomorphism fixing the leaves', 'result = True <-> isomorphic t1.tree_parents t1.tree_num_leaves t2.tree_parents t2.tree_num_leaves')],
   at={'loop1.begin': ['let ghost f0 = f in', 'assert { i_it < %s.len - 1 -> %s <= %s[i_it] }' % (P1, NL1, P1), 'assert { %s <= i_it -> has_child %s i_it && child_before %s i_it i_it }' % (NL1, P1, P1)],
       'loop1.end': ['iso_step %s %s %s f0 f (i_it - 1) (if i_it - 1 < %s then i_it - 1 else f0.elts (i_it - 1))' % (P1, P2, NL1, NL1)],
       'loop1.post': ['iso_end %s %s %s f' % (P1, P2, NL1)]},
   loops={1: dict(inv=['0 <= i_it <= i_end', 'iso_upto %s %s %s f i_it' % (P1, P2, NL1)])})
prop('C23', ['iso'], lemmas=['inj_onto', 'iso_onto', 'iso_end', 'iso_before', 'iso_kept', 'iso_step_img', 'iso_step'], harness='C23.cpp')
