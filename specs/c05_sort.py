# argument sorting (1-D arrays); std::sort and std::stable_sort through the contract of the standard
theory('argsort', '''
predicate is_perm (r: vec int) (n: int) = r.len = n /\\ (forall k. 0 <= k < n -> 0 <= r[k] < n) /\\ (forall k l. 0 <= k < l < n -> r[k] <> r[l]) /\\ (forall m. 0 <= m < n -> occurs r m)
predicate before_r (x: vec real) (e f: int) = x[e] <. x[f] \\/ (x[e] = x[f] /\\ e < f)
predicate before_i (x: vec int) (e f: int) = x[e] < x[f] \\/ (x[e] = x[f] /\\ e < f)
''')

for k, (st, el, cmp) in enumerate(((st, el, cmp) for st in (True, False) for el, cmp in (('double', 'less'), ('long', 'less'), ('double', 'greater')))):
    w = ('stable_arg_sort' if st else 'arg_sort'); tag = el[0] + '_' + cmp
    b = 'before_r' if el == 'double' else 'before_i'
    lt = lambda p, q: ('xa[%s] %s%s xa[%s]' % (p, '<' if cmp == 'less' else '>', '.' if el == 'double' else '', q)).replace('xa', 'arrayx')
    ens = [('a permutation of the indices', 'is_perm result arrayx.len'), ('sorted', 'forall k l. 0 <= k < l < result.len -> not (%s)' % lt('result[l]', 'result[k]'))]
    if st: ens.append(('equal elements keep their order', 'forall k l. 0 <= k < l < result.len -> arrayx[result[k]] = arrayx[result[l]] -> result[k] < result[l]'))
    fn('hg::' + w, w + '_' + tag, sig=r'uvector<%s,.*; std::%s' % (el, cmp), use=['argsort'], ensures=ens)
    if cmp == 'less': fn('hg::' + w, w + '_' + el[0], sig=r'uvector<%s,.*expression_tag>> &\)$' % el, use=['argsort'], ensures=ens)
prop('C05', [w + t for w in ('stable_arg_sort', 'arg_sort') for t in ('_d_less', '_l_less', '_d_greater', '_d', '_l')], harness='C05.cpp', bounded=['2-D arrays (lexicographic order of the rows)'])
