# height, extrema, extinction values (nodes of index >= nl are the internal nodes)
theory('below', '''
predicate increasing (p: vec int) (alt: vec real) = forall u. 0 <= u < p.len -> alt[u] <=. alt[p[u]]
predicate decreasing (p: vec int) (alt: vec real) = forall u. 0 <= u < p.len -> alt[p[u]] <=. alt[u]
(** m is the least / greatest altitude of an internal node below v (v included) *)
predicate is_min_below (p: vec int) (nl: int) (alt: vec real) (v: int) (m: real) =
  (forall u. nl <= u < p.len -> anc p v u -> m <=. alt[u]) /\\ exists u. nl <= u < p.len /\\ anc p v u /\\ alt[u] = m
predicate is_max_below (p: vec int) (nl: int) (alt: vec real) (v: int) (m: real) =
  (forall u. nl <= u < p.len -> anc p v u -> alt[u] <=. m) /\\ exists u. nl <= u < p.len /\\ anc p v u /\\ alt[u] = m
(** all internal nodes below v have the altitude of v *)
predicate flat (p: vec int) (nl: int) (alt: vec real) (v: int) = forall u. nl <= u < p.len -> anc p v u -> alt[u] = alt[v]
predicate is_ext (p: vec int) (nl: int) (alt: vec real) (v: int) = nl <= v < p.len /\\ flat p nl alt v /\\ (v = p.len - 1 \\/ alt[p[v]] <> alt[v])
(** md gives the extreme altitude below each internal node of index < k *)
predicate is_md (p: vec int) (nl: int) (alt: vec real) (inc: bool) (md: vec real) (k: int) = forall v. nl <= v < k -> (if inc then is_min_below p nl alt v md[v] else is_max_below p nl alt v md[v])
predicate better (inc: bool) (x y: real) = if inc then x <. y else x >. y
(** r is the child of v leading to its extremal descendant: the first internal child whose extreme altitude is not improved by another one *)
predicate refson (p: vec int) (nl: int) (md: vec real) (inc: bool) (v: int) (r: int) =
  (r = -1 /\\ forall c. nl <= c < p.len - 1 -> p[c] <> v) \\/
  (nl <= r < p.len - 1 /\\ p[r] = v /\\ forall c. nl <= c < p.len - 1 -> p[c] = v -> not (better inc md[c] md[r]) /\\ (c < r -> better inc md[r] md[c]))
predicate extinction (p: vec int) (nl: int) (alt: vec real) (attr: vec real) (inc: bool) (r: vec real) =
  r.len = p.len /\\
  (exists md rs. is_md p nl alt inc md p.len /\\ (forall v. nl <= v < p.len -> refson p nl md inc v rs[v]) /\\
     (nl < p.len -> r[p.len - 1] = attr[p.len - 1]) /\\ forall v. nl <= v < p.len - 1 -> r[v] = (if rs[p[v]] = v then r[p[v]] else attr[v])) /\\
  (forall l a. 0 <= l < nl -> anc p a l -> is_ext p nl alt a -> (forall b. anc p b l -> is_ext p nl alt b -> a <= b) -> r[l] = r[a]) /\\
  (forall l. 0 <= l < nl -> (forall b. anc p b l -> not (is_ext p nl alt b)) -> r[l] = 0.0)
''', deps=['anc'])
lemma('anc_children', '(p: vec int) (v k: int)', ['parents_up p', '0 <= v < p.len', '0 <= k <= p.len'], ['forall u. 0 <= u < k -> anc p v u -> u <> v -> exists c. u <= c < v /\\ p[c] = v /\\ anc p c u'],
      body='if 0 < k then begin anc_children p v (k - 1); if pure { anc p v (k - 1) /\\ v <> k - 1 } then anc_child p v (k - 1) end', rec=True, variant='k', use=['anc'], lemmas=['anc_child'])
lemma('anc_ups', '(p: vec int) (v k: int)', ['parents_up p', '0 <= v < p.len', '0 <= k <= p.len'], ['forall u c. 0 <= u < k -> 0 <= c < p.len - 1 -> p[c] = v -> anc p c u -> anc p v u'],
      body='if 0 < k then begin anc_ups p v (k - 1); if pure { exists c. 0 <= c < p.len - 1 /\\ p[c] = v /\\ anc p c (k - 1) } then begin let ghost c = any int ensures { 0 <= result < p.len - 1 /\\ p[result] = v /\\ anc p result (k - 1) } in anc_trans p (k - 1) c; assert { anc p v c } end end',
      rec=True, variant='k', use=['anc'], lemmas=['anc_trans'])
lemma('anc_le_leaf', '(p: vec int) (nl k: int)', ['parents_ok p nl', '0 <= k <= p.len'], ['forall a v. 0 <= v < k -> anc p a v -> a < nl -> a = v'],
      body='if 0 < k then begin anc_le_leaf p nl (k - 1); anc_ge p (k - 1); if k < p.len then anc_ge p (p.elts (k - 1)) end', rec=True, variant='k', use=['anc'], lemmas=['anc_ge'])
# extreme altitude below a node from those of its internal children
for nm, pr, le, inc in (('min', 'is_min_below', 'alt[u] <=. alt[p[u]]', 'increasing'), ('max', 'is_max_below', 'alt[p[u]] <=. alt[u]', 'decreasing')):
    le = lambda a, b: '%s <=. %s' % ((a, b) if nm == 'min' else (b, a))
    lemma('below_' + nm, '(p: vec int) (nl: int) (alt md: vec real) (v g: int)', ['parents_ok p nl', 'alt.len = p.len', inc + ' p alt', 'nl <= v < p.len',
          'nl <= g < v /\\ p[g] = v', 'forall c. nl <= c < v -> p[c] = v -> %s p nl alt c md[c]' % pr, 'forall c. nl <= c < v -> p[c] = v -> ' + le('md[g]', 'md[c]')], ['%s p nl alt v md[g]' % pr],
          body='anc_children p v p.len; anc_ups p v p.len; assert { alt[g] %s alt[v] }; assert { %s }; assert { forall u. nl <= u < p.len -> anc p v u -> u <> v -> %s }' % ('<=.' if nm == 'min' else '>=.', le('md[g]', 'alt[g]'), le('md[g]', 'alt[u]')), use=['below'], lemmas=['anc_children', 'anc_ups'])
    lemma('below0_' + nm, '(p: vec int) (nl: int) (alt: vec real) (v: int)', ['parents_ok p nl', 'nl <= v < p.len', 'forall c. 0 <= c < v -> p[c] = v -> c < nl'], ['%s p nl alt v alt[v]' % pr],
          body='anc_children p v p.len; anc_le_leaf p nl p.len', use=['below'], lemmas=['anc_children', 'anc_le_leaf'])

AL = 'xaltitudes'
def mdspec(inc, md, lo, nodes, chl, leaves=True, rs=None):
    """invariants of the loops computing the extreme altitude below each internal node; md: array, nodes / chl: loop numbers of nodes and children"""
    pr, cmp, ext, opp = ('is_min_below', '<.', 'c_real_max', '<=.') if inc else ('is_max_below', '>.', 'c_real_lowest', '>=.')
    n, c, f = lo
    L = 'tree.tree_children[%s - %s]' % (n, NL)
    at = {'loop%d.begin' % nodes: ['let ghost ref g = -1 in', 'let ghost o0 = %s in' % md],
          'loop%d.begin' % chl: ['child_gap %s %s tree.tree_children %s %s' % (P, NL, n, c), 'let ghost cc = (tree.tree_children.elts (%s - %s)).elts %s in' % (n, NL, c),
                                 'if pure { cc >= %s /\\ (%s = True \\/ %s[cc] %s %s[%s]) } then g <- cc' % (NL, f, md, cmp, md, n)],
          'loop%d.post' % chl: ['child_gap %s %s tree.tree_children %s (%s).len' % (P, NL, n, L)],
          'loop%d.end' % nodes: ['if pure { g = -1 } then below0_%s %s %s %s (%s - 1) else begin assert { forall c. %s <= c < %s - 1 -> %s[c] = %s - 1 -> %s p_ nl_ alt_ c o0[c] }; below_%s %s %s %s o0 (%s - 1) g end' % (
              'min' if inc else 'max', P, NL, AL, n, NL, n, P, n, pr, 'min' if inc else 'max', P, NL, AL, n)]}
    at = {k: [x.replace('p_ nl_ alt_', '%s %s %s' % (P, NL, AL)) for x in v] for k, v in at.items()}
    loops = {nodes: dict(inv=['%s <= %s <= %s' % (NL, n, NV), 'forall v. %s <= v < %s -> %s %s %s %s v %s[v]' % (NL, n, pr, P, NL, AL, md)] + ['forall v. 0 <= v < %s -> %s[v] = %s[%s[v]]' % (NL, md, AL, P)] * leaves),
             chl: dict(inv=['0 <= %s <= (%s).len' % (c, L), 'forall u. u <> %s -> %s[u] = o0[u]' % (n, md), 'g = -1 \\/ %s <= g < upto %s %s /\\ %s[g] = %s' % (NL, L, c, P, n), '%s = True <-> g = -1' % f,
                            'g = -1 -> %s[%s] = %s /\\ forall u. 0 <= u < upto %s %s -> %s[u] = %s -> u < %s' % (md, n, ext, L, c, P, n, NL), 'g <> -1 -> %s[%s] = o0[g]' % (md, n),
                            'forall u. %s <= u < upto %s %s -> %s[u] = %s -> %s[%s] %s o0[u]' % (NL, L, c, P, n, md, n, opp)])}
    lem = ['child_gap', 'below_min' if inc else 'below_max', 'below0_min' if inc else 'below0_max']
    return at, loops, lem
LIM = 'forall u. 0 <= u < %s -> c_real_lowest <. %s[u] /\\ %s[u] <. c_real_max' % (NV, AL, AL)
MONO = 'if increasing_altitudes then increasing %s %s else decreasing %s %s' % (P, AL, P, AL)
a1, l1, m1 = mdspec(True, 'min_depth', ('n_it', 'c_it', 'flag'), 1, 2)
a2, l2, m2 = mdspec(False, 'max_depth', ('n_it_1', 'c_it_1', 'flag_1'), 3, 4)
fn('hg::attribute_height', 'attr_height', use=['below', 'folds'], lemmas=m1 + m2[1:], requires=TT + ['%s.len = %s' % (AL, NV), MONO, LIM],
   ensures=[('one value per node', 'result.len = ' + NV),
            ('difference with the extreme altitude below', 'forall v. %s <= v < %s -> if increasing_altitudes then is_min_below %s %s %s v (%s[%s[v]] -. result[v]) else is_max_below %s %s %s v (%s[%s[v]] +. result[v])' % (NL, NV, P, NL, AL, AL, P, P, NL, AL, AL, P)),
            ('leaves', 'forall v. 0 <= v < %s -> result[v] = 0.0' % NL)],
   at={**a1, **a2}, loops={**l1, **l2})

FLA = lambda v: 'flat %s %s %s %s' % (P, NL, AL, v)
fn('hg::attribute_extrema', 'attr_extrema', use=['below'], lemmas=['anc_children', 'anc_ups', 'anc_le_leaf'], requires=TT + ['%s.len = %s' % (AL, NV)],
   ensures=[('one value per node', 'result.len = ' + NV), ('exactly the extrema', 'forall v. 0 <= v < %s -> (result[v] = True <-> is_ext %s %s %s v)' % (NV, P, NL, AL))],
   at={'loop1.begin': ['anc_children %s n_it %s; anc_ups %s n_it %s' % (P, NV, P, NV), 'assert { extrema[n_it] = True <-> %s }' % FLA('n_it')],
       'loop1.post': ['if pure { %s < %s } then begin anc_children %s (%s - 1) %s; anc_ups %s (%s - 1) %s; assert { extrema[%s - 1] = True <-> %s } end' % (NL, NV, P, NV, NV, P, NV, NV, NV, FLA('(%s - 1)' % NV))]},
   loops={1: dict(inv=['%s <= n_it <= %s' % (NL, NV), 'n_it <= %s - 1 \\/ %s = %s' % (NV, NL, NV), 'forall v. 0 <= v < %s -> (extrema[v] = True <-> false)' % NL, 'forall v. %s <= v < n_it -> (extrema[v] = True <-> is_ext %s %s %s v)' % (NL, P, NL, AL),
                       'forall v. %s <= v < %s -> n_it <= v -> (extrema[v] = True <-> forall c. %s <= c < n_it -> %s[c] = v -> %s[c] = %s[v] /\\ %s)' % (NL, NV, NL, P, AL, AL, FLA('c'))])})
a1, l1, m1 = mdspec(True, 'min_depth', ('n_it', 'c_it', 'flag'), 1, 2, False)
a2, l2, m2 = mdspec(False, 'max_depth', ('n_it_1', 'c_it_1', 'flag_1'), 3, 4, False)
RS = lambda md, inc, v: 'refson %s %s %s %s %s ref_son[%s]' % (P, NL, md, inc, v, v)
for (n, md, inc, c), at, lp, k in ((('n_it', 'min_depth', 'True', 'c_it'), a1, l1, 1), (('n_it_1', 'max_depth', 'False', 'c_it_1'), a2, l2, 3)):
    lp[k]['inv'] += ['forall v. %s <= v < %s -> %s' % (NL, n, RS(md, inc, 'v')), 'forall v. %s <= v < %s -> ref_son[v] = -1' % (n, NV)]
    L = 'tree.tree_children[%s - %s]' % (n, NL)
    lp[k + 1]['inv'] += ['forall u. u <> %s -> ref_son[u] = rs0[u]' % n, 'ref_son[%s] = g' % n, 'g <> -1 -> forall c. %s <= c < g -> %s[c] = %s -> better %s o0[g] o0[c]' % (NL, P, n, inc)]
    at['loop%d.begin' % k] += ['let ghost rs0 = ref_son in']
    at['loop%d.end' % k] += ['assert { forall v. %s <= v < %s - 1 -> %s }' % (NL, n, RS(md, inc, 'v'))]
    at['loop%d.post' % k] = ['md_ <- %s' % md]
EXT5 = 'extinction[v] = (if ref_son[%s[v]] = v then extinction[%s[v]] else xattribute[v])' % (P, P)
LEAFX = ['(forall a. anc %s a l -> is_ext %s %s %s a -> (forall b. anc %s b l -> is_ext %s %s %s b -> a <= b) -> RR[l] = RR[a])' % (P, P, NL, AL, P, P, NL, AL),
         '((forall b. anc %s b l -> not (is_ext %s %s %s b)) -> RR[l] = 0.0)' % (P, P, NL, AL)]
fn('hg::attribute_extinction_value', 'attr_extinction', use=['below', 'folds', 'keep'], lemmas=m1 + m2[1:] + ['anc_ge'], requires=TT + ['%s.len = %s' % (AL, NV), 'xattribute.len = ' + NV, MONO, LIM],
   ensures=[('extinction value', 'extinction %s %s %s xattribute increasing_altitudes result' % (P, NL, AL))],
   at={**a1, **a2, 'entry': ['let ghost ref md_ : vec real = vec_empty () in'],
       'return': ['let ghost md1 = md_ in let ghost rs1 = ref_son in assert { is_md %s %s %s increasing_altitudes md1 %s /\\ (forall v. %s <= v < %s -> refson %s %s md1 increasing_altitudes v rs1[v]) }' % (P, NL, AL, NV, NL, NV, P, NL)]},
   loops={**l1, **l2, 5: dict(inv=['n_it_2 <= %s - 1' % NV, '%s < %s -> %s - 1 <= n_it_2' % (NL, NV, NL), '%s = %s -> n_it_2 = n_it_2_at5' % (NL, NV), 'forall v. %s <= v -> n_it_2 < v < %s - 1 -> %s' % (NL, NV, EXT5), 'extinction[%s - 1] = xattribute[%s - 1]' % (NV, NV)]),
          6: dict(inv=['0 <= n_it_3 <= ' + NL, 'forall v. %s <= v < %s - 1 -> %s' % (NL, NV, EXT5), '%s < %s -> extinction[%s - 1] = xattribute[%s - 1]' % (NL, NV, NV, NV)] +
                  ['forall l. 0 <= l < n_it_3 -> %s' % x.replace('RR', 'extinction') for x in LEAFX])})
HGT = lambda h: '%s.len = %s /\\ (forall v. %s <= v < %s -> if increasing_altitudes then is_min_below %s %s %s v (%s[%s[v]] -. %s[v]) else is_max_below %s %s %s v (%s[%s[v]] +. %s[v])) /\\ (forall v. 0 <= v < %s -> %s[v] = 0.0)' % (
    h, NV, NL, NV, P, NL, AL, AL, P, h, P, NL, AL, AL, P, h, NL, h)
fn('hg::attribute_dynamics', 'attr_dynamics', use=['below'], requires=TT + ['%s.len = %s' % (AL, NV), MONO, LIM],
   ensures=[('dynamics: extinction value for the height', 'exists h. %s /\\ extinction %s %s %s h increasing_altitudes result' % (HGT('h'), P, NL, AL))])
prop('C28', ['attr_height', 'attr_extrema', 'attr_extinction', 'attr_dynamics', 'tree_compute_children', 'proseqi'], harness='C28.cpp')
