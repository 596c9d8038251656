T_OK = ['tree_ok this', 'this.tree_parents.len > 0']
theory('anc', '''
(** a is v or an ancestor of v *)
inductive anc (p: vec int) (a v: int) =
  | Anc_refl: forall p: vec int, v: int. anc p v v
  | Anc_step: forall p: vec int, a v: int. v <> p[v] -> anc p a p[v] -> anc p a v
''', deps=['tree'])
lemma('anc_ge', '(p: vec int) (v: int)', ['parents_up p', '0 <= v < p.len'], ['forall a. anc p a v -> v <= a < p.len'],
      body='if v < p.len - 1 then anc_ge p (p.elts v)', rec=True, variant='p.len - v', use=['anc'])
lemma('anc_root', '(p: vec int) (v: int)', ['parents_up p', '0 <= v < p.len'], ['anc p (p.len - 1) v'],
      body='if v < p.len - 1 then anc_root p (p.elts v)', rec=True, variant='p.len - v', use=['anc'])
lemma('anc_trans', '(p: vec int) (v b: int)', ['parents_up p', '0 <= v < p.len', 'anc p b v'], ['forall a. anc p a b -> anc p a v'],
      body='if v <> b then anc_trans p (p.elts v) b', rec=True, variant='p.len - v', use=['anc'])
lemma('anc_linear', '(p: vec int) (v b: int)', ['parents_up p', '0 <= v < p.len', 'anc p b v'], ['forall a. anc p a v -> anc p a b \\/ anc p b a'],
      body='if v <> b then anc_linear p (p.elts v) b', rec=True, variant='p.len - v', use=['anc'])
lemma('anc_mono', '(p: vec int) (alt: vec real) (v: int)', ['parents_up p', '0 <= v < p.len', 'alt.len = p.len', 'forall u. 0 <= u < p.len -> alt[u] <=. alt[p[u]]'],
      ['forall a. anc p a v -> alt[v] <=. alt[a]'], body='if v < p.len - 1 then anc_mono p alt (p.elts v)', rec=True, variant='p.len - v', use=['anc'])

fn(TREE + '::compute_children', 'tree_compute_children', use=['tree'], mutable_this=True,
   requires=['tree_shape this', 'this.tree_children_computed = True -> tree_ok this', 'this.tree_children_computed = False -> this.tree_children.len = 0', 'this.tree_empty_children.len = 0'],
   ensures=[('children relation is the inverse of the parent relation', 'tree_ok this'), ('computed', 'this.tree_children_computed = True'),
            ('nothing else changes', 'this = { (old this) with tree_children = this.tree_children; tree_children_computed = True }')],
   at={'loop1.pre': ['let ghost ref pos = (fun (_: int) -> 0) in'],
       'loop1.begin': ['pos <- Map.set pos v (this.tree_children[this.tree_parents[v] - this.tree_num_leaves]).len'],
       'loop1.post': ['assert { children_ok this.tree_parents this.tree_num_leaves this.tree_children pos }']},
   loops={1: dict(inv=['0 <= v <= this.tree_root',
     'this.tree_children.len = this.tree_num_vertices - this.tree_num_leaves',
     'forall w. 0 <= w < this.tree_children.len -> lists_children this.tree_parents pos (w + this.tree_num_leaves) this.tree_children[w]',
     'forall w k. 0 <= w < this.tree_children.len -> 0 <= k < (this.tree_children[w]).len -> (this.tree_children[w])[k] < v',
     'forall u. 0 <= u < v -> 0 <= pos u < (this.tree_children[this.tree_parents[u] - this.tree_num_leaves]).len /\\ (this.tree_children[this.tree_parents[u] - this.tree_num_leaves])[pos u] = u'])})
fn(TREE + '::clear_children', 'tree_clear_children', use=['tree'], mutable_this=True,
   requires=['tree_ok this'], ensures=[('cache dropped', 'tree_ok this /\\ this.tree_children_computed = False /\\ this.tree_children.len = 0'),
                                         ('nothing else changes', 'this = { (old this) with tree_children = this.tree_children; tree_children_computed = False }')])
TO = ['tree_ok t']
N = 't.tree_parents.len'
def _visit(w, q, req, ens, inv, at=None, sig=None):
    fn('hg::hgv::' + q, w, use=['anc'], sig=sig, requires=req, ensures=ens, loops={1: dict(inv=inv)}, at=at or {})
_visit('visit_ltr', 'visit_leaves_to_root', TO,
   [('every requested node once, in index order', 'let s = (if l = 0 then 0 else t.tree_num_leaves) in let e = (if r = 0 then t.tree_parents.len else t.tree_parents.len - 1) in '
     '(s <= e -> result.len = e - s) /\\ (s > e -> result.len = 0) /\\ forall k. 0 <= k < result.len -> result[k] = s + k')],
   ['o.len = i_it - (if l = 0 then 0 else t.tree_num_leaves)', '(if l = 0 then 0 else t.tree_num_leaves) <= i_it <= i_end', 'forall k. 0 <= k < o.len -> o[k] = (if l = 0 then 0 else t.tree_num_leaves) + k'])
_visit('visit_rtl', 'visit_root_to_leaves', TO,
   [('every requested node once, in reverse index order', 'let s = (if r = 0 then t.tree_parents.len - 1 else t.tree_parents.len - 2) in let e = (if l = 0 then 0 else t.tree_num_leaves) in '
     '(e <= s -> result.len = s - e + 1) /\\ (s < e -> result.len = 0) /\\ forall k. 0 <= k < result.len -> result[k] = s - k')],
   ['o.len = (if r = 0 then t.tree_parents.len - 1 else t.tree_parents.len - 2) - i_it', 'i_end <= i_it <= (if r = 0 then t.tree_parents.len - 1 else t.tree_parents.len - 2)', 'forall k. 0 <= k < o.len -> o[k] = (if r = 0 then t.tree_parents.len - 1 else t.tree_parents.len - 2) - k'])
_visit('visit_leaves_', 'visit_leaves', TO, [('the leaves in order', 'result.len = t.tree_num_leaves /\\ forall k. 0 <= k < result.len -> result[k] = k')],
   ['o.len = i_it', '0 <= i_it <= i_end', 'forall k. 0 <= k < o.len -> o[k] = k'])
CC = ['tree_ok t', 't.tree_children_computed = True']
fn('hg::hgv::visit_children', 'visit_children', use=['anc'], requires=CC + ['0 <= v < t.tree_parents.len'],
   ensures=[('exactly the nodes whose parent is v, increasing', '(v < t.tree_num_leaves -> result.len = 0) /\\ (forall k. 0 <= k < result.len -> 0 <= result[k] < t.tree_parents.len - 1 /\\ t.tree_parents[result[k]] = v) /\\ '
             '(forall k m. 0 <= k < m < result.len -> result[k] < result[m]) /\\ (forall u. 0 <= u < t.tree_parents.len - 1 -> t.tree_parents[u] = v -> exists k. 0 <= k < result.len /\\ result[k] = u)')],
   loops={1: dict(inv=['0 <= c_it <= c_end', 'o.len = c_it', 'forall k. 0 <= k < c_it -> o[k] = c[k]'])})
fn('hg::hgv::visit_ancestors', 'visit_ancestors', use=['anc'], requires=['tree_ok t', '0 <= v < t.tree_parents.len'],
   ensures=[('from the node to the root along the parents', 'result.len >= 1 /\\ result[0] = v /\\ result[result.len - 1] = t.tree_parents.len - 1 /\\ (forall k. 0 <= k < result.len - 1 -> result[k+1] = t.tree_parents[result[k]])')],
   loops={1: dict(inv=['c_it = -1 \\/ 0 <= c_it < t.tree_parents.len', 'o.len >= 0', 'if o.len = 0 then c_it = v else o[0] = v /\\ 0 <= o[o.len - 1] < t.tree_parents.len /\\ if c_it = -1 then o[o.len - 1] = t.tree_parents.len - 1 else o[o.len - 1] < t.tree_parents.len - 1 /\\ c_it = t.tree_parents[o[o.len - 1]]', 'c_it = -1 -> o.len > 0', 'forall k. 0 <= k < o.len - 1 -> o[k+1] = t.tree_parents[o[k]]'], var='if c_it = -1 then 0 else t.tree_parents.len - c_it + 1')})

ALT = ['forall u. 0 <= u < t.tree_parents.len -> altitudes[u] <=. altitudes[t.tree_parents[u]]', 'altitudes.len = t.tree_parents.len']
fn(TREE + '::find_region', 'tree_find_region', use=['anc'], requires=['tree_ok this', '0 <= v < this.tree_parents.len', 'altitudes.len = this.tree_parents.len', 'forall u. 0 <= u < this.tree_parents.len -> altitudes[u] <=. altitudes[this.tree_parents[u]]'],
   ensures=[('an ancestor, strictly below the level unless it is the node itself', 'anc this.tree_parents result v /\\ (result = v \\/ altitudes[result] <. lambda)'),
            ('highest such', 'forall a. anc this.tree_parents a v -> altitudes[a] <. lambda -> a <= result')],
   at={'entry': ['let ghost v0 = v in', 'anc_ge this.tree_parents v0'], 'return': ['anc_ge this.tree_parents v', 'if v < this.tree_parents.len - 1 then anc_mono this.tree_parents altitudes (this.tree_parents.elts v)'],
       'loop1.begin': ['anc_trans this.tree_parents v0 v', 'assert { anc this.tree_parents this.tree_parents[v] v }']},
   loops={1: dict(inv=['0 <= v < this.tree_parents.len', 'anc this.tree_parents v v0', 'v = v0 \\/ altitudes[v] <. lambda', 'forall a. anc this.tree_parents a v0 -> anc this.tree_parents a v \\/ a < v'], var='this.tree_parents.len - v')})
fn('hg::find_region', 'find_region1', sig=r'long; const double', use=['anc'], requires=['tree_ok tree', '0 <= v < tree.tree_parents.len', 'altitudes.len = tree.tree_parents.len', 'forall u. 0 <= u < tree.tree_parents.len -> altitudes[u] <=. altitudes[tree.tree_parents[u]]'],
   ensures=[('as the member function', 'anc tree.tree_parents result v /\\ (result = v \\/ altitudes[result] <. lambda) /\\ forall a. anc tree.tree_parents a v -> altitudes[a] <. lambda -> a <= result')])
fn('hg::lowest_common_ancestor', 'lca_naive', sig=r'\(long; long', use=['anc'], requires=['tree_ok t', '0 <= v1 < t.tree_parents.len', '0 <= v2 < t.tree_parents.len'],
   ensures=[('a common ancestor', 'anc t.tree_parents result v1 /\\ anc t.tree_parents result v2'), ('the deepest one', 'forall a. anc t.tree_parents a v1 -> anc t.tree_parents a v2 -> anc t.tree_parents a result')],
   at={'entry': ['let ghost a0 = v1 in', 'let ghost b0 = v2 in'], 'loop1.begin': ['anc_ge t.tree_parents v1', 'anc_ge t.tree_parents v2', 'anc_trans t.tree_parents a0 v1', 'anc_trans t.tree_parents b0 v2',
      'assert { anc t.tree_parents t.tree_parents[v1] v1 /\\ anc t.tree_parents t.tree_parents[v2] v2 }']},
   loops={1: dict(inv=['0 <= v1 < t.tree_parents.len', '0 <= v2 < t.tree_parents.len', 'anc t.tree_parents v1 a0 /\\ anc t.tree_parents v2 b0', 'forall a. anc t.tree_parents a a0 -> anc t.tree_parents a b0 -> anc t.tree_parents a v1 /\\ anc t.tree_parents a v2'], var='2 * t.tree_parents.len - v1 - v2')})
VIN = 'forall i. 0 <= i < vertices.len -> 0 <= vertices[i] < t.tree_parents.len'
def _arr(w, q, sig, req, el, extra=None, inv='0 <= j', var='j', **kw):
    V = kw.pop('V', 'xvertices')
    fn('hg::' + q, w, sig=sig, use=['anc'], requires=req, ensures=[('one answer per query', 'result.len = %s.len /\\ forall k. 0 <= k < result.len -> %s' % (V, el('result', V)))],
       loops={1: dict(inv=['0 <= %s <= %s.len' % (var, V), '%s.len = %s.len' % (kw.get('R', 'result_'), V), 'forall k. 0 <= k < %s -> %s' % (var, el(kw.get('R', 'result_'), V))])})
XV = 'forall i. 0 <= i < xvertices.len -> 0 <= xvertices[i] < t.tree_parents.len'
_arr('num_children_arr', 'num_children', r'xexpression', CC + [XV], lambda R, V: '%s[k] = (if %s[k] < t.tree_num_leaves then 0 else (t.tree_children[%s[k] - t.tree_num_leaves]).len)' % (R, V, V))
_arr('parent_arr', 'parent', r'xexpression', TO + [XV], lambda R, V: '%s[k] = t.tree_parents[%s[k]]' % (R, V))
_arr('is_leaf_arr', 'is_leaf', r'xexpression', TO + [XV], lambda R, V: '(%s[k] = True <-> %s[k] < t.tree_num_leaves)' % (R, V))
_arr('child_arr', 'child', r'xexpression', CC + [XV, 'forall k. 0 <= k < xvertices.len -> t.tree_num_leaves <= xvertices[k] /\\ 0 <= i < (t.tree_children[xvertices[k] - t.tree_num_leaves]).len'],
     lambda R, V: '%s[k] = (t.tree_children[%s[k] - t.tree_num_leaves])[i]' % (R, V))
_arr('find_region_arr', 'find_region', r'xexpression', TO + [XV, 'xaltitudes.len = t.tree_parents.len', 'xlambdas.len = xvertices.len', 'forall u. 0 <= u < t.tree_parents.len -> xaltitudes[u] <=. xaltitudes[t.tree_parents[u]]'],
     lambda R, V: 'anc t.tree_parents %s[k] %s[k] /\\ (%s[k] = %s[k] \\/ xaltitudes[%s[k]] <. xlambdas[k]) /\\ (forall a. anc t.tree_parents a %s[k] -> xaltitudes[a] <. xlambdas[k] -> a <= %s[k])' % (R, V, R, V, R, V, R), var='i')
_arr('lca_naive_arr', 'lowest_common_ancestor', r'xexpression', TO + ['xvertices_1.len = xvertices_2.len', XV.replace('xvertices', 'xvertices_1'), XV.replace('xvertices', 'xvertices_2')],
     lambda R, V: 'anc t.tree_parents %s[k] xvertices_1[k] /\\ anc t.tree_parents %s[k] xvertices_2[k] /\\ (forall a. anc t.tree_parents a xvertices_1[k] -> anc t.tree_parents a xvertices_2[k] -> anc t.tree_parents a %s[k])' % (R, R, R), var='i', V='xvertices_1', R='lcas')
prop('C03', ['tree_compute_children', 'tree_clear_children', 'visit_ltr', 'visit_rtl', 'visit_leaves_', 'visit_children', 'visit_ancestors', 'tree_find_region', 'find_region1', 'find_region_arr', 'lca_naive', 'lca_naive_arr',
             'num_children_arr', 'parent_arr', 'is_leaf_arr', 'child_arr'], harness='C03.cpp')
