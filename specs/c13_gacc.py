# graph and indexed accumulators
def _gf(name, init, step, x=True):
    return 'let rec ghost function %s (es: vec edge) (nb: bool) (l: vec int) (v: int)%s (i: int) : %s variant { i } = if i <= 0 then %s else %s\n' % (
        name, ' (x: vec real)' if x else '', 'real' if x is True else 'int', init, step.replace('REC', '(%s es nb l v%s (i - 1))' % (name, ' x' if x else '')).replace('CUR', '(x.elts (gnth es nb l v (i - 1)))'))
theory('gfolds', '''
(** other extremity of edge e at v; the k-th edge / neighbour of v, whose edge list is l *)
let ghost function gother (es: vec edge) (e v: int) : int = if (es.elts e).edge_source = v then (es.elts e).edge_target else (es.elts e).edge_source
let ghost function gnth (es: vec edge) (nb: bool) (l: vec int) (v k: int) : int = if nb then gother es (l.elts k) v else l.elts k
''' + _gf('gsum', '0.0', 'CUR +. REC') + _gf('gprod', '1.0', 'rmul CUR REC') + _gf('gmin', 'c_real_max', 'rmin CUR REC') + _gf('gmax', 'c_real_lowest', 'rmax CUR REC')
 + _gf('gbmin', '(-1)', '(let b = REC in if b = -1 then i - 1 else if CUR <. x.elts (gnth es nb l v b) then i - 1 else b)', x=1)
 + _gf('gbmax', '(-1)', '(let b = REC in if b = -1 then i - 1 else if CUR >. x.elts (gnth es nb l v b) then i - 1 else b)', x=1), deps=['ug', 'folds'])
def gacc(mode, a):
    e = mode != 'a'; x = {'e': 'xedge_weights', 'v': 'xvertex_weights', 'a': 'xweights'}[mode]; o = 'output' if e else 'res'
    L = 'graph.ug_out_edges[%s]'; A5 = lambda v: 'graph.ug_edges %s (%s) (%s)' % ('True' if mode == 'v' else 'False', L % v, v)
    F = lambda f, v, i: ('g%s %s %s (%s)' % (f, A5(v), x, i)) if e else ('%s indices %s (%s) (%s)' % ({'sum': 'fsum', 'prod': 'fprod', 'min': 'fmin', 'max': 'fmax', 'bmin': 'bmin', 'bmax': 'bmax'}[f], x, v, i))
    nth = lambda v, k: 'gnth %s (%s)' % (A5(v), k)
    cnt = (lambda v, i: '(%s)' % i) if e else (lambda v, i: '(nch indices (%s) (%s))' % (v, i))
    O = lambda R, v: '%s[%s]' % (R, v)
    st = {}; req = []; lem = []
    if a in ('sum', 'prod', 'min', 'max'): run = lambda R, v, i: '%s = %s' % (O(R, v), F(a, v, i)); fin = run
    elif a == 'counter': run = lambda R, v, i: '%s = from_int %s' % (O(R, v), cnt(v, i)); fin = run
    elif a == 'mean':
        run = lambda R, v, i: '%s = %s' % (O(R, v), F('sum', v, i)); st = {'m_counter': lambda c, v, i: '%s = %s' % (c, cnt(v, i))}
        fin = lambda R, v, i: '%s = (if %s = 0 then 0.0 else %s /. from_int %s)' % (O(R, v), cnt(v, i), F('sum', v, i), cnt(v, i)); lem = [] if e else ['nch_sum0']
    elif a == 'last':
        run = (lambda R, v, i: '(0 < %s -> %s = %s[%s])' % (i, O(R, v), x, nth(v, '%s - 1' % i))) if e else (lambda R, v, i: '(lastc indices (%s) (%s) <> -1 -> %s = %s[lastc indices (%s) (%s)])' % (v, i, O(R, v), x, v, i)); fin = run
    elif a == 'first':
        run = (lambda R, v, i: '(0 < %s -> %s = %s[%s])' % (i, O(R, v), x, nth(v, '0'))) if e else (lambda R, v, i: '(firstc indices (%s) (%s) <> -1 -> %s = %s[firstc indices (%s) (%s)])' % (v, i, O(R, v), x, v, i)); fin = run
        st = {'m_first': (lambda c, v, i: '(%s = True <-> %s = 0)' % (c, i)) if e else (lambda c, v, i: '(%s = True <-> firstc indices (%s) (%s) = -1)' % (c, v, i))}
    else:
        b = 'b' + a[3:]; z = 'c_real_max' if a == 'argmin' else 'c_real_lowest'
        rank = (lambda v, i: F(b, v, i)) if e else (lambda v, i: 'bidx (%s) indices (%s)' % (F(b, v, i), v))
        val = (lambda v, i: '%s[%s]' % (x, nth(v, F(b, v, i)))) if e else (lambda v, i: '%s[%s]' % (x, F(b, v, i)))
        run = lambda R, v, i: '%s = from_int (%s)' % (O(R, v), rank(v, i)); fin = run
        st = {'m_temp': lambda c, v, i: '(%s.len = 1 /\\ %s[0] = (if %s = -1 then %s else %s))' % (c, c, F(b, v, i), z, val(v, i)), 'cur_index': lambda c, v, i: '%s = %s' % (c, cnt(v, i))}
        req = ['forall u. 0 <= u < %s.len -> %s[u] %s. %s' % (x, x, '<' if a == 'argmin' else '>', z)]
    inner = lambda k, s_, b, ow: dict(inv=['%s <= %s <= %s + 1' % (ow, s_, ow), '%s = input_view + (%s - %s)' % (b, s_, ow), 'forall u. u <> %s \\/ %s = %s -> %s[u] = %s_at%d[u]' % (ow, s_, ow, o, o, k), '%s = %s + 1 -> %s[%s] = %s[input_view]' % (s_, ow, o, ow, x)], var='%s + 1 - %s' % (ow, s_))
    if e:
        it = 'e' if mode == 'e' else 'v'; ln = (L % 'v') + '.len'
        loops = {1: dict(inv=['0 <= i_it <= graph.ug_num_vertices', 'forall v. 0 <= v < i_it -> ' + fin('output', 'v', ln)] + ['acc_m_temp.len = 1'] * (a[:3] == 'arg')),
                 2: dict(inv=['0 <= %s_it <= %s_end' % (it, it), 'acc_m_storage_begin = i_it', 'forall u. u <> i_it -> output[u] = output_at2[u]', run('output', 'i_it', it + '_it')] + [g('acc_' + f, 'i_it', it + '_it') for f, g in st.items()])}
        if a == 'first': loops[2]['inv'].append('acc_m_storage_end = i_it + 1'); loops[3] = inner(3, 's', 'value_begin', 'i_it')
        fn('hg::accumulate_graph_' + {'e': 'edges', 'v': 'vertices'}[mode], 'gacc%s_%s' % (mode, a), sig='accumulator_%s &' % a, use=['gfolds'], lemmas=lem,
           requires=['ug_ok graph', '%s.len = graph.%s' % (x, 'ug_edges.len' if mode == 'e' else 'ug_num_vertices')] + req,
           ensures=[('one value per vertex', 'result.len = graph.ug_num_vertices'), ('each vertex: fold of its %s' % ('incident edges' if mode == 'e' else 'neighbours'), 'forall v. 0 <= v < graph.ug_num_vertices -> ' + fin('result', 'v', ln))], loops=loops)
    else:
        S = 'accs_m_storage_begin'; fl = 4 if a == 'first' else 3
        ext = lambda v, i: [g('accs_%s[%s]' % (f, v), v, i) for f, g in st.items()]
        lens = ['accs_%s.len = %s.len' % (f, S) for f in st] + (['accs_m_storage_end.len = %s.len' % S, 'forall w. 0 <= w < %s.len -> accs_m_storage_end[w] = w + 1' % S] if a in ('first', ) else [])
        base = ['forall w. 0 <= w < %s.len -> %s[w] = w' % (S, S)] + lens
        loops = {1: dict(inv=['0 <= i', 'i <= size', '%s.len = i' % S] + base + ['forall v. 0 <= v < i -> ' + t for t in [run('res', 'v', '0')] + ext('v', '0')]),
                 2: dict(inv=['0 <= i_2 <= indices.len', '%s.len = size' % S] + base + ['forall v. 0 <= v < size -> ' + t for t in [run('res', 'v', 'i_2')] + ext('v', 'i_2')]),
                 fl: dict(inv=['0 <= acc_it <= size'] + base + ['forall v. 0 <= v < acc_it -> ' + fin('res', 'v', 'indices.len')] + ['forall v. acc_it <= v < size -> ' + t for t in [run('res', 'v', 'indices.len')] + ext('v', 'indices.len')])}
        at = {}
        if a == 'first': loops[3] = inner(3, 's', 'value_begin', 'indices[i_2]'); at['loop2.begin'] = ['range_firstc indices i_2'] ; lem = ['range_firstc']
        if a == 'last': at['loop2.begin'] = ['range_lastc indices i_2']; lem = ['range_lastc']
        if a == 'mean': at['loop3.begin'] = ['nch_sum0 indices xweights acc_it indices.len']
        fn('hg::accumulate_at', 'gacca_' + a, sig='accumulator_%s &' % a, use=['gfolds'], lemmas=lem, requires=['0 < indices.len', 'xweights.len = indices.len', 'forall j. 0 <= j < indices.len -> -1 <= indices[j]'] + req, at=at,
           ensures=[('one value per index up to the largest', 'forall j. 0 <= j < indices.len -> indices[j] < result.len'), ('no more', 'exists j. 0 <= j < indices.len /\\ indices[j] = result.len - 1'),
                    ('each index: fold of the values at this index', 'forall v. 0 <= v < result.len -> ' + fin('result', 'v', 'indices.len'))], loops=loops)
GACC = ('sum', 'prod', 'min', 'max', 'mean', 'counter', 'first', 'last', 'argmin', 'argmax')
for a in GACC:
    for m in 'eva': gacc(m, a)
prop('C13', ['gacc%s_%s' % (m, a) for m in 'eva' for a in GACC], lemmas=[], harness='C13.cpp', bounded=['vectorial (more than one dimension) data: random graphs up to 8 vertices'])
