import sys; sys.path.insert(0, '/verif/tools/dev'); import mkcand
def make(id, *a):
    try:
        if a[6]: mkcand.make(id, *a)
    except AssertionError as e: print('skip', id, str(e)[:80])
I='include/higra/'
H='hierarchy/hierarchy_core.hpp'
make('c17_a','C17',I+'algo/watershed.hpp',"""            if (labels(i) == background_label) {
                labels(i) = labels(uf.find(i));""","""            if (labels(i) == 0) {
                labels(i) = labels(uf.find(i));""",'a background label different from 0','pixels are not flooded when the background label is not 0','''  ugraph g(8); for (int i = 0; i < 7; ++i) add_edge(i, i + 1, g); array_1d<double> w{1, 1, 1, 5, 1, 1, 1}; array_1d<int> s{3, -1, -1, -1, -1, -1, -1, 7};
  auto r = labelisation_seeded_watershed(g, w, s, -1); for (int i = 0; i < 8; ++i) CHECK(r(i) == (i < 4 ? 3 : 7));''','#include "higra/algo/watershed.hpp"')
make('c17_b','C17',I+'algo/watershed.hpp',"""                if (labels(c1) == background_label) {
                    labels(c1) = labels(c2);
                } else {
                    labels(c2) = labels(c1);
                }
                uf.link(c1, c2);""","""                auto c = uf.link(c1, c2);
                if (labels(c) == background_label && labels(c1) != background_label) {
                    labels(c) = labels(c1);
                }""",'a seeded class linked under a larger class without label, the seed being at the target side of the edge','the seed does not flood the class it meets','''  ugraph g(8); for (int i = 0; i < 7; ++i) add_edge(i, i + 1, g); array_1d<double> w{1, 2, 3, 4, 5, 6, 7};
  for (int a = 0; a < 8; ++a) { array_1d<int> s = xt::zeros<int>({8}); s(a) = 4; auto r = labelisation_seeded_watershed(g, w, s); for (int i = 0; i < 8; ++i) CHECK(r(i) == 4); }''','#include "higra/algo/watershed.hpp"')
make('c17_c','C17',I+'algo/watershed.hpp',"""        array_1d<index_t> sorted_edges_indices = stable_arg_sort(edge_weights);

        index_t num_nodes = num_vertices(graph);""","""        array_1d<index_t> sorted_edges_indices = stable_arg_sort(xt::cast<int>(edge_weights));

        index_t num_nodes = num_vertices(graph);""",'edge weights that are not integers','edges whose weights have the same integer part are processed in index order','''  ugraph g(3); add_edge(0, 1, g); add_edge(1, 2, g); array_1d<double> w{0.75, 0.25}; array_1d<int> s{1, 0, 2}; auto r = labelisation_seeded_watershed(g, w, s); CHECK(r(1) == 2);''','#include "higra/algo/watershed.hpp"')
make('c40_a','C40',I+'algo/watershed.hpp',"""                        labels[x] = res;
                        notInL[x] = true;""","""                        labels[x] = res;
                        notInL[x] = (x == v);""",'a stream which reaches a vertex labelled by an earlier stream of more than one vertex that itself joined a basin','the already labelled vertex is not recognised','''  // 0-1-2-3-4 decreasing then plateau: exhaustive over small weighted paths with a fork
  for (int m = 0; m < 4096; ++m) { ugraph g(7); int a[6]; for (int i = 0; i < 6; ++i) a[i] = (m >> (2 * i)) & 3; int p[7] = {0, 6, 1, 5, 2, 4, 3}; for (int i = 0; i < 6; ++i) add_edge(p[i], p[i + 1], g);
    array_1d<int> w = xt::zeros<int>({6}); for (int i = 0; i < 6; ++i) w(i) = a[i];
    int mins = 0; for (int i = 0; i < 6;) { int j = i; while (j < 6 && a[j] == a[i]) ++j; if ((i == 0 || a[i - 1] > a[i]) && (j == 6 || a[j] > a[i])) ++mins; i = j; }
    auto r = labelisation_watershed(g, w); index_t mx = 0; for (int i = 0; i < 7; ++i) { CHECK(r(i) >= 1 && r(i) <= 7); mx = std::max(mx, r(i)); } CHECK(mx == mins); }''','#include "higra/algo/watershed.hpp"')
make('c40_b','C40',I+'algo/watershed.hpp',"""                            LL.push_back(adjacent_vertex);
                            break; // stop breadth_first""","""                            LL.push_back(adjacent_vertex);
                            // stop breadth_first""",'a vertex with a descending edge followed by another edge of the same weight','the scan of the upper plateau goes on after the descent','''  for (int m = 0; m < 6561; ++m) { ugraph g(6); int e[8][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 4}, {2, 5}, {3, 4}, {4, 5}, {2, 3}}; int q = m; array_1d<int> w = xt::zeros<int>({8}); for (int i = 0; i < 8; ++i) { add_edge(e[i][0], e[i][1], g); w(i) = q % 3; q /= 3; }
    int fm[6]; for (int v = 0; v < 6; ++v) { fm[v] = 9; for (int i = 0; i < 8; ++i) if (e[i][0] == v || e[i][1] == v) fm[v] = std::min(fm[v], w(i)); }
    int cc[6]; for (int v = 0; v < 6; ++v) cc[v] = v; for (int k = 0; k < 6; ++k) for (int i = 0; i < 8; ++i) if (fm[e[i][0]] == w(i) && fm[e[i][1]] == w(i)) cc[e[i][0]] = cc[e[i][1]] = std::min(cc[e[i][0]], cc[e[i][1]]);
    int mins = 0; for (int v = 0; v < 6; ++v) if (cc[v] == v) { bool mi = true; for (int i = 0; i < 8; ++i) for (int s = 0; s < 2; ++s) { int a = e[i][s], b = e[i][1 - s]; if (cc[a] == v && w(i) == fm[v] && fm[b] < fm[v]) mi = false; } mins += mi; }
    auto r = labelisation_watershed(g, w); index_t mx = 0; for (int v = 0; v < 6; ++v) mx = std::max(mx, r(v)); CHECK(mx == mins);
    for (int v = 0; v < 6; ++v) for (int u = 0; u < 6; ++u) if (cc[u] == cc[v]) { bool mi = true; for (int i = 0; i < 8; ++i) for (int s = 0; s < 2; ++s) { int a = e[i][s], b = e[i][1 - s]; if (cc[a] == cc[v] && w(i) == fm[v] && fm[b] < fm[v]) mi = false; } if (mi) CHECK(r(u) == r(v)); } }''','#include "higra/algo/watershed.hpp"')
make('c40_c','C40',I+'algo/watershed.hpp',"""                    if (notInL[adjacent_vertex] && edge_weights(e) == fminus[y]) {""","""                    if (notInL[adjacent_vertex] && edge_weights(e) <= fminus[x]) {""",'a stream which leaves a plateau at a lower level','edges above the current level are followed','''  ugraph g(5); add_edge(0, 1, g); add_edge(1, 2, g); add_edge(2, 3, g); add_edge(3, 4, g); array_1d<int> w{3, 1, 3, 0}; auto r = labelisation_watershed(g, w); CHECK(r(1) == r(2)); CHECK(r(3) == r(4)); CHECK(r(1) != r(3));
  array_1d<int> w2{3, 1, 2, 0}; auto r2 = labelisation_watershed(g, w2); CHECK(r2(1) == r2(2)); CHECK(r2(3) == r2(4)); CHECK(r2(1) != r2(3)); CHECK(r2(0) == r2(1));''','#include "higra/algo/watershed.hpp"')
make('c31_a','C31',I+'algo/bipartite_graph.hpp',"ct = uf.link(uf.find(map[s]), ct);","ct = uf.link(map[s], ct);",'an opposite vertex that has been merged into another class meanwhile','a non canonical element is linked: two classes lose their relation','''  for (int m = 0; m < 2000; ++m) { unsigned q = m * 2654435761u + 7; auto rnd = [&] { q = q * 1664525u + 1013904223u; return (q >> 16); }; int n = 8, k = 9; bool side[8]; for (int i = 0; i < n; ++i) side[i] = rnd() & 1; side[0] = 0; side[1] = 1;
    array_1d<index_t> s = xt::zeros<index_t>({k}), t = s; for (int i = 0; i < k; ++i) { do { s(i) = rnd() % n; t(i) = rnd() % n; } while (side[s(i)] == side[t(i)]); }
    auto r = is_bipartite_graph(s, t, n); CHECK(r.first); for (int i = 0; i < k; ++i) CHECK(r.second(s(i)) != r.second(t(i))); }''','#include "higra/algo/bipartite_graph.hpp"')
make('c31_b','C31',I+'algo/bipartite_graph.hpp',"} else if (color[n] == color[v]) {","} else if (n != o && color[n] == color[v]) {",'an odd cycle all of whose monochromatic edges touch the first vertex of the component (or a self-loop there)','the conflict is only seen from the other side, which has been visited before','''  ugraph g(3); add_edge(0, 0, g); add_edge(0, 1, g); add_edge(1, 2, g); CHECK(!is_bipartite_graph(g).first);''','#include "higra/algo/bipartite_graph.hpp"')
make('c10_a','C10',I+'structure/details/range_minimum_query.hpp',"                if (lb + 1 == rb) return v;","                if (lb + 1 >= rb - (r == rbase ? 1 : 0)) return v;",'a query over three blocks which ends exactly at the beginning of the last one','the middle block is not looked at','''  size_t n = 40; array_1d<index_t> p = xt::zeros<index_t>({2 * n - 1}); for (size_t i = 0; i < n; ++i) p(i) = i < 2 ? n : n + i - 1; for (size_t i = n; i < 2 * n - 1; ++i) p(i) = i + 1 < 2 * n - 1 ? i + 1 : i;
  tree t(p); for (size_t bs = 1; bs < 12; ++bs) { lca_fast l(t, bs); for (size_t i = 0; i < 2 * n - 1; ++i) for (size_t j = 0; j < 2 * n - 1; ++j) { CHECK(l.lca((index_t) i, (index_t) j) == lowest_common_ancestor((index_t) i, (index_t) j, t)); } }
  array_1d<index_t> q{7, 7, 8, 8, 9, 10, 10, 9, 10, 11, 11, 11}; (void) q; array_1d<index_t> a{4, 2, 2, 1, 0, 1, 2, 3, 3}; range_minimum_query_internal::rmq_sparse_table_block<index_t> rq(a, 3);
  for (index_t x = 0; x < 9; ++x) for (index_t y = x + 1; y < 9; ++y) { index_t m = 99; for (index_t k = x; k < y; ++k) m = std::min(m, a(k)); auto z = rq.query(x, y); CHECK(a(z) == m); }
  array_1d<index_t> b{0, 3, 3, 2, 1, 2, 3, 3, 4}; range_minimum_query_internal::rmq_sparse_table_block<index_t> rq2(b, 3);
  for (index_t x = 0; x < 9; ++x) for (index_t y = x + 1; y < 9; ++y) { index_t m = 99; for (index_t k = x; k < y; ++k) m = std::min(m, b(k)); auto z = rq2.query(x, y); CHECK(b(z) == m); }''','#include "higra/structure/lca_fast.hpp"')
make('c11_a','C11',I+'hierarchy/component_tree.hpp',"""                            current_vertex_reprez = uf.link(neighbor_component, current_vertex_reprez);
                            representing(current_vertex_reprez) = current_vertex;""","""                            auto merged = uf.link(neighbor_component, current_vertex_reprez);
                            if (merged != current_vertex_reprez) {
                                representing(merged) = current_vertex;
                            }
                            current_vertex_reprez = merged;""",'-','equivalent: representing(current) is already the current vertex','')
make('c11_b','C11',I+'hierarchy/component_tree.hpp',"""                if (vertex_weights[parents[par]] == vertex_weights[par]) {
                    parents[e] = parents[par];
                }""","""                if (vertex_weights[parents[par]] == vertex_weights[e]) {
                    parents[e] = parents[par];
                }""",'a plateau whose pre-tree path leaves it through a vertex whose own weight differs','a chain of equal vertices is not collapsed: two nodes stand for one component','''  for (int m = 0; m < 729; ++m) { ugraph g(6); int q = m; array_1d<int> w = xt::zeros<int>({6}); for (int i = 0; i < 6; ++i) { w(i) = q % 3; q /= 3; } int p[6] = {3, 0, 4, 1, 5, 2}; for (int i = 0; i < 5; ++i) add_edge(p[i], p[i + 1], g);
    auto r = component_tree_max_tree(g, w); for (index_t v = 6; v + 1 < (index_t) num_vertices(r.tree); ++v) CHECK(r.altitudes(parent(v, r.tree)) < r.altitudes(v)); for (int v = 0; v < 6; ++v) CHECK(r.altitudes(parent(v, r.tree)) == w(v)); }''','#include "higra/hierarchy/component_tree.hpp"')
make('c26_a','C26',I+H,"""        lca_fast lca(tree);
        auto lca_edges = lca.lca(edge_iterator(graph));
        return xt::eval(xt::index_view(altitudes, lca_edges));""","""        lca_fast lca(tree);
        auto lca_edges = lca.lca(edge_iterator(graph));
        auto result = xt::eval(xt::index_view(altitudes, lca_edges));
        for (index_t i = 0; i < (index_t) lca_edges.size(); ++i) {
            if (is_leaf(lca_edges(i), tree))
                result(i) = 0;
        }
        return result;""",'a self-loop on a leaf with a non-zero altitude','self-loops get 0','''  ugraph g(3); add_edge(0, 0, g); add_edge(0, 1, g); add_edge(1, 2, g); array_1d<index_t> p{3, 3, 4, 4, 4}; tree t(p); array_1d<double> a{5, 1, 2, 7, 9}; auto r = saliency_map(g, t, a); CHECK(r(0) == 5); CHECK(r(1) == 7); CHECK(r(2) == 9);''','#include "higra/hierarchy/hierarchy_core.hpp"')
make('c14_a','C14',I+'algo/tree.hpp',"<= static_cast<typename T::value_type>(threshold));","< std::nextafter(static_cast<double>(threshold), 1e300));",'integral altitudes with a fractional threshold between them','-','')
make('c14_b','C14',I+'algo/tree.hpp',"""            if (map(lbl) == invalid_index) {
                map(lbl) = current_label;
                current_label++;
            }
            labels(n) = map(lbl);""","""            if (map(lbl) == invalid_index) {
                map(lbl) = current_label++;
            }
            labels(n) = (lbl < n) ? lbl : map(lbl);""",'-','equivalent: a label is never smaller than the leaf','')
make('c14_c','C14',I+'algo/tree.hpp',"""        auto labels = labelisation_horizontal_cut_from_threshold(tree, altitudes, 0);""","""        auto labels = labelisation_horizontal_cut_from_threshold(tree, altitudes, std::numeric_limits<typename T::value_type>::epsilon());""",'altitudes between 0 and the machine epsilon','regions of tiny but non-zero altitude are merged','''  array_1d<index_t> p{3, 3, 4, 4, 4}; tree t(p); array_1d<double> a{0, 0, 0, 1e-17, 1}; auto r = labelisation_hierarchy_supervertices(t, a); CHECK(r(0) != r(1));''','#include "higra/algo/tree.hpp"')
make('c14_d','C14',I+'algo/tree.hpp',"""                                     xt::arange<index_t>(num_vertices(tree)),""","""                                     xt::arange<int16_t>(num_vertices(tree)),""",'a tree with more than 32767 nodes','labels wrap around','''  size_t n = 20000; array_1d<index_t> p = xt::zeros<index_t>({2 * n - 1}); for (size_t i = 0; i < n; ++i) p(i) = i < 2 ? n : n + i - 1; for (size_t i = n; i < 2 * n - 1; ++i) p(i) = i + 1 < 2 * n - 1 ? i + 1 : i;
  tree t(p); array_1d<double> a = xt::zeros<double>({2 * n - 1}); for (size_t i = n; i < 2 * n - 1; ++i) a(i) = i; auto r = labelisation_horizontal_cut_from_threshold(t, a, (double) (2 * n - 4)); CHECK((index_t) r(0) == (index_t) (2 * n - 4));''','#include "higra/algo/tree.hpp"')
make('c16_a','C16',I+'algo/rag.hpp',[("""                            if (vertex_labels[adjv] == label_region) {
                                if (vertex_map[adjv] == invalid_index) {""","""                            if (vertex_labels[adjv] == label_region && vertex_map[adjv] == invalid_index) {
                                {""")],'a region containing an edge between two of its vertices that is not the one used for its exploration','inner edges are mapped to an edge of the rag','''  ugraph g(4); add_edge(0, 1, g); add_edge(1, 2, g); add_edge(0, 2, g); add_edge(2, 3, g); array_1d<int> l{1, 1, 1, 2}; auto r = make_region_adjacency_graph_from_labelisation(g, l); CHECK(num_edges(r.rag) == 1); for (int i = 0; i < 3; ++i) CHECK(r.edge_map(i) == -1);''','#include "higra/algo/rag.hpp"')
make('c16_b','C16',I+'algo/rag.hpp',"""                    auto label_region = vertex_labels[start_vertex];
                    s.push(start_vertex);
                    vertex_map[start_vertex] = num_regions;
                    canonical_edge_indexes.push_back(-1);""","""                    auto label_region = vertex_labels[start_vertex];
                    s.push(start_vertex);
                    vertex_map[start_vertex] = num_regions;
                    canonical_edge_indexes.push_back(0);""",'region 1 adjacent to region 0 when there is no edge in the rag yet','-','')
make('c19_a','C19',I+'structure/embedding.hpp',"""                    if (coordinates(i) < 0 || coordinates(i) >= _shape(i))
                        return false;""","""                    if (coordinates(i) < 0 || (index_t) coordinates(i) >= _shape(i))
                        return false;""",'points with floating point coordinates','-','')
make('c19_b','C19',I+'structure/embedding.hpp',"""                    for (index_t i = 0; i < dim - 1; ++i) {

                        result(j, i) = index / sum_prod[i];
                        index = index % sum_prod[i];
                    }""","""                    for (index_t i = 0; i < dim - 1; ++i) {

                        result(j, i) = index / sum_prod[i];
                        index -= (int) result(j, i) * (int) sum_prod[i];
                    }""",'a grid of more than 2^31 elements','32-bit product','''  xt::xarray<index_t> sh = xt::xarray<index_t>::from_shape({3}); sh(0) = 3; sh(1) = 65536; sh(2) = 65536; embedding_grid<3> e(sh); array_1d<index_t> ix{(index_t) 65536 * 65536 * 2 + 70000}; auto r = e.lin2grid(ix); CHECK(r(0, 0) == 2); CHECK(r(0, 1) == 1); CHECK(r(0, 2) == 4464);''','#include "higra/structure/embedding.hpp"')
make('c32_a','C32',I+'algo/tree_energy_optimization.hpp',"optimal_nodes(i) = true;","optimal_nodes(i) = (i != root(tree));",'-','-','')
make('c03_d','C03',I+'structure/tree_graph.hpp',"while (parent(v) != v && altitudes[parent(v)] < lambda) {","while (parent(v) != v && altitudes[parent(v)] < lambda && parent(v) != _root) {",'a node whose largest enclosing region is the root','the root is never returned by find_region','''  array_1d<index_t> p{3, 3, 4, 4, 4}; tree t(p); array_1d<double> a{0, 0, 0, 1, 2}; CHECK(t.find_region(0, 10.0, a) == 4); CHECK(t.find_region(0, 2.0, a) == 3);''','#include "higra/structure/tree_graph.hpp"')
make('c03_e','C03',I+'structure/tree_graph.hpp',"""                _children.clear();
                _children_computed = false;""","""                _children_computed = false;""",'clear_children, then compute_children again','every child is listed twice','''  array_1d<index_t> p{3, 3, 4, 4, 4}; tree t(p); t.compute_children(); t.clear_children(); t.compute_children(); CHECK(t.num_children(3) == 2); CHECK(t.num_children(4) == 2);''','#include "higra/structure/tree_graph.hpp"')
make('c01_d','C01',I+'structure/unionfind.hpp',"""                while (parent[element] != i) {
                    idx_t tmp = element;
                    element = parent[element];
                    parent[tmp] = i;
                }""","""                while (parent[element] != i) {
                    idx_t tmp = element;
                    element = parent[element];
                    parent[tmp] = parent[element];
                }""",'-','equivalent (path halving)','')
make('c01_e','C01',I+'structure/unionfind.hpp',"""                idx_t i = parent.size();
                parent.push_back(i);
                rank.push_back(0);""","""                idx_t i = parent.size();
                parent.push_back(i);
                rank.resize(parent.size(), i > 0 ? rank[parent[i - 1]] : 0);""",'-','only ranks: equivalent','')
make('c02_d','C02',I+'structure/tree_graph.hpp',"""_parents(std::move(parents.derived_cast())),""","""_parents(parents),""",'-','equivalent','')
