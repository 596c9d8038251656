# weighting of the edges of a graph from vertex data (scalar data; the enumeration order of weight_functions is read from the code through the fixed parameter)
A20 = 'xvertex_weights[graph.ug_edges[e].edge_source]'; B20 = 'xvertex_weights[graph.ug_edges[e].edge_target]'
W20 = {'mean': '({a} +. {b}) *. 0.5', 'min': 'rmin {a} {b}', 'max': 'rmax {a} {b}', 'L0': '(if {a} = {b} then 0.0 else 1.0)', 'L1': '(if {a} >=. {b} then {a} -. {b} else {b} -. {a})', 'L2': '(if {a} >=. {b} then {a} -. {b} else {b} -. {a})', 'L_infinity': '(if {a} >=. {b} then {a} -. {b} else {b} -. {a})', 'L2_squared': 'rmul ({a} -. {b}) ({a} -. {b})', 'source': '{a}', 'target': '{b}'}
for i, w in enumerate(['mean', 'min', 'max', 'L0', 'L1', 'L2', 'L_infinity', 'L2_squared', 'source', 'target']):
    val = W20[w].format(a=A20, b=B20)
    fn('hg::weight_graph', 'weight_' + w, sig=r'vecS.*uvector<double.*weight_functions', use=['ug', 'kruskal', 'folds'], const={'weight': str(i)}, requires=['ug_ok graph', 'live_edges %s %s' % (ES, N), 'xvertex_weights.len = ' + N, 'weight = %d' % i],
       ensures=[('each edge gets the value of the declared function on its extremities', 'result.len = {0}.len /\\ forall e. 0 <= e < {0}.len -> result[e] = {1}'.format(ES, val))],
       loops={1: dict(inv=['0 <= i <= result_.len', 'forall e. 0 <= e < i -> result_[e] = ' + val])})
fn('hg::weight_graph', 'weight_fun', inline=True, sig=r'vecS.*std::function<double', use=['ug', 'kruskal'], params={'fun': ('fun', ('int', 'int'), 'real')}, requires=['ug_ok graph', 'live_edges %s %s' % (ES, N)],
   ensures=[('each edge gets the value of the given function on its extremities', 'result.len = {0}.len /\\ forall e. 0 <= e < {0}.len -> result[e] = fun_ {0}[e].edge_source {0}[e].edge_target'.format(ES))],
   loops={1: dict(inv=['0 <= i <= result_.len', 'forall e. 0 <= e < i -> result_[e] = fun_ {0}[e].edge_source {0}[e].edge_target'.format(ES)])})
prop('C20', ['weight_' + w for w in W20] + ['weight_fun'], harness='C20.cpp', bounded=['vector-valued vertex data (L0, L1, L2, L_infinity, L2_squared): random graphs up to 30 vertices, up to 8 components'])
