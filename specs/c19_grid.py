import re
# grid embeddings of dimension 1 to 4: the coordinates are explicit polynomials of the shape
EM = 'hg::embedding_internal::embedding_grid'
lemma('divmod', '(x y s: int)', ['0 < y', '0 <= x < s * y'], ['0 <= div x y < s', 'x = div x y * y + mod x y', '0 <= mod x y < y'])
lemma('radix', '(a b c d s: int)', ['0 <= b < s', '0 <= d < s', 'a * s + b = c * s + d'], ['a = c', 'b = d'], body='assert { a < c -> a * s + s <= c * s }; assert { c < a -> c * s + s <= a * s }')
lemma('radix_le', '(a b n s: int)', ['0 <= b < s', '0 <= a < n'], ['0 <= a * s + b < n * s'], body='assert { a * s + s <= n * s }')
for d in (1, 2, 3, 4):
    short(EM + '<%d, long>$' % d, 'grid%d_' % d)
    g = 'grid%d' % d; th = 'gridt%d' % d
    prod = lambda s, a, b: '1' if a >= b else s + '[%d]' % (b - 1) if b - a == 1 else '(%s * %s[%d])' % (prod(s, a + 1, b), s, a)   # s[b-1] * ... * s[a], as computed by the code
    def lin(s, c, k): return c + '[0]' if k == 1 else '(%s * %s[%d] + %s[%d])' % (lin(s, c, k - 1), s, k - 1, c, k - 1)
    def pl(x): return re.sub(r'\b([sce])\[(\d)\]', r'(\1.elts \2)', x)
    R = EM + '<%d, long>' % d
    F = 'grid%d_' % d
    theory(th, '''
predicate shape%(d)d (s: vec int) = s.len = %(d)d /\\ %(pos)s
function nb%(d)d (s: vec int) : int = %(nb)s
(** row major index *)
function lin%(d)d (s c: vec int) : int = %(lin)s
predicate in_grid%(d)d (s c: vec int) = c.len = %(d)d /\\ %(ing)s
''' % dict(d=d, pos=' /\\ '.join('1 <= s[%d]' % i for i in range(d)), nb=prod('s', 0, d), lin=lin('s', 'c', d), ing=' /\\ '.join('0 <= c[%d] < s[%d]' % (i, i) for i in range(d))))
    lemma('lin_range%d' % d, '(s c: vec int)', ['shape%d s' % d, 'in_grid%d s c' % d], ['0 <= lin%d s c < nb%d s' % (d, d)], use=[th], lemmas=['radix_le'])
    lemma('lin_inj%d' % d, '(s c e: vec int)', ['shape%d s' % d, 'in_grid%d s c' % d, 'in_grid%d s e' % d, 'lin%d s c = lin%d s e' % (d, d)], [' /\\ '.join('c[%d] = e[%d]' % (i, i) for i in range(d))], use=[th], lemmas=['radix'],
          body='; '.join('radix (%s) (c.elts %d) (%s) (e.elts %d) (s.elts %d)' % (pl(lin('s', 'c', k - 1)), k - 1, pl(lin('s', 'e', k - 1)), k - 1, k - 1) for k in range(d, 1, -1)) or '()')
    S = '<%d, long>' % d
    TH, SP, NB = 'this.%s_shape' % F, 'this.%s_sum_prod' % F, 'this.%s_nbElement' % F
    SH = lambda x: '%s.%s_shape' % (x, F); SPx = lambda x: '%s.%s_sum_prod' % (x, F)
    OKG = lambda x: 'grid%d_ok %s' % (d, x)
    theory(th + 'o', 'predicate grid%d_ok (e: grid%d_) = shape%d e.%s_shape /\\ e.%s_nbElement = nb%d e.%s_shape /\\ e.%s_sum_prod.len = %d /\\ %s' % (d, d, d, F, F, d, F, F, d,
        ' /\\ '.join('e.%s_sum_prod[%d] = %s' % (F, i, prod('e.%s_shape' % F, i + 1, d)) for i in range(d))), recs=[R], deps=[th])
    U = dict(use=[th + 'o'])
    for suf, sig in (('', r'.*::embedding_grid\(const xt::xtensor_cont'), ('x', r'.*::embedding_grid\(const xt::xexpr'), ('v', r'.*::embedding_grid\(const std::vector')):
        p = {'': 'shape', 'x': 'shape', 'v': 'shape'}[suf]
        l0 = 0 if suf == 'x' else 1; a1, a2, a3 = (1, 2, 3) if suf == 'x' else (2, 3, 4)
        iv = {1: dict(inv=[])}
        f2 = ['this_shape.len = %d' % d, 'forall k. 0 <= k < %d -> this_shape[k] >= 1' % d, 'forall k. 0 <= k < %d -> this_shape[k] = shape[k]' % d]
        v1, e1, v2, v3 = ('c_it', 'c_end', 'i', 'd_it') if suf == 'x' else ('c_it_1', 'c_end_1', 'i_1', 'd_it')
        lp = {a1: dict(inv=['0 <= %s <= %s' % (v1, e1), 'forall k. 0 <= k < %s -> this_shape[k] >= 1' % v1]),
              a2: dict(inv=f2 + [('-1 <= %s <= %d' % (v2, d - 2)) if d > 1 else '%s = -1' % v2, 'this_sum_prod.len = %d' % d] + [v2 + ' < %d -> this_sum_prod[%d] = %s' % (k, k, prod('this_shape', k + 1, d)) for k in range(d)]),
              a3: dict(inv=['0 <= %s <= %d' % (v3, d)] + [v3 + ' = %d -> this_nbElement = %s' % (k, prod('this_shape', 0, k)) for k in range(d + 1)])}
        if l0: lp[1] = dict(inv=['0 <= c_it <= %d' % d, 'i = c_it', 'forall k. 0 <= k < c_it -> this_shape[k] = shape[k]'])
        fn(EM + '::embedding_grid', g + '_new' + suf, sig=S + sig, ensures=[('the given shape', '%s.len = shape.len /\\ forall i. 0 <= i < %d -> %s[i] = shape[i]' % (SH('result'), d, SH('result'))), ('row major strides and number of elements', OKG('result'))],
           raises='shape.len <> %d \\/ exists i. 0 <= i < %d /\\ shape[i] <= 0' % (d, d), loops=lp, **U)
    fn(EM + '::size', g + '_size', sig=S, requires=[OKG('this')], ensures=[('number of points', 'result = nb%d %s' % (d, TH))], **U)
    fn(EM + '::grid2lin', g + '_lin', sig=S + r'.*fixed_container', requires=[OKG('this'), 'in_grid%d %s coordinates' % (d, TH)], lemmas=['lin_range%d' % d], ensures=[('row major index', 'result = lin%d %s coordinates' % (d, TH)), ('a valid index', '0 <= result < nb%d %s' % (d, TH))],
       at={'return': ['lin_range%d %s coordinates' % (d, TH)]},
       loops={1: dict(inv=['0 <= i <= %d' % (d - 1)] + ['i = %d -> res = %s' % (k, ' + '.join(['coordinates[%d]' % (d - 1)] + ['coordinates[%d] * %s[%d]' % (j, SP, j) for j in range(k)])) for k in range(d)])}, **U)
    fn(EM + '::grid2lin', g + '_linv', sig=S + r'.*std::vector', requires=[OKG('this'), 'in_grid%d %s coordinates' % (d, TH)], lemmas=['lin_range%d' % d], ensures=[('row major index', 'result = lin%d %s coordinates' % (d, TH)), ('a valid index', '0 <= result < nb%d %s' % (d, TH))],
       at={'return': ['lin_range%d %s coordinates' % (d, TH)]},
       loops={1: dict(inv=['0 <= c_it <= %d' % d, 'count = c_it'] + ['c_it = %d -> result_ = %s' % (k, ' + '.join(['0'] + ['coordinates[%d] * %s[%d]' % (j, SP, j) for j in range(k)])) for k in range(d + 1)])}, **U)
    fn(EM + '::lin2grid', g + '_grid', sig=S + r'::lin2grid\(long', requires=[OKG('this'), '0 <= index < nb%d %s' % (d, TH)], lemmas=['divmod', 'lin_range%d' % d],
       ensures=[('inside the grid', 'in_grid%d %s result' % (d, TH)), ('converts back to the index', 'lin%d %s result = index' % (d, TH))],
       at=dict({'entry': ['let ghost index0_ = index in']}, **({'loop1.begin': [' '.join('if i = %d then divmod index (%s.elts %d) (%s.elts %d);' % (k, SP, k, TH, k) for k in range(d - 1))]} if d > 1 else {})),
       loops={1: dict(inv=['0 <= i <= %d' % (d - 1), 'result_.len = %d' % d] + ['i = %d -> 0 <= index < %s' % (k, prod(TH, k, d)) for k in range(d)] +
                      ['i = %d -> index0_ = %s' % (k, ' + '.join(['result_[%d] * %s[%d]' % (j, SP, j) for j in range(k)] + ['index'])) for k in range(d)] + ['%d < i -> 0 <= result_[%d] < %s[%d]' % (k, k, TH, k) for k in range(d - 1)])}, **U)
    for suf, sig in (('', r'.*fixed_cont'), ('v', r'.*std::vector')):
        fn(EM + '::contains', g + '_in' + suf, sig=S + sig, requires=[OKG('this')] + (['coordinates.len = %d' % d] if suf else []), ensures=[('exactly the points of the grid', 'result = True <-> in_grid%d %s coordinates' % (d, TH))],
           loops={1: dict(inv=['0 <= %s <= %d' % (('c_it' if suf else 'i'), d)] + (['count = c_it'] if suf else []) + ['forall k. 0 <= k < %s -> 0 <= coordinates[k] < %s[k]' % ('c_it' if suf else 'i', TH)])}, **U)
GF = ['new', 'newx', 'newv', 'size', 'lin', 'linv', 'grid', 'in', 'inv']
prop('C19', ['grid%d_%s' % (d, w) for d in (1, 2, 3, 4) for w in GF], lemmas=['lin_inj%d' % d for d in (1, 2, 3, 4)], harness='C19.cpp', bounded=['conversions of arrays of points or of indices (xexpression overloads, dimensions other than 1 to 4): random grids'])
