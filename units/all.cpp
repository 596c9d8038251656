// Instantiations of the code under contract.  Nothing here is verified or executed: it only makes the templates concrete.
#include "higra/graph.hpp"
#include "higra/structure/unionfind.hpp"
#include "clients.hpp"
using namespace hg;
void drive_uf() { union_find u(3); u.make_set(); u.find(0); u.link(0, 1); }
using namespace hg::hgv;
void drive_tree(const ai &p, const ad &a, tree &t, index_t v) {
  tree x(p); t.compute_children(); t.clear_children(); t.children(v); t.num_children(v); t.child(0, v); num_children(p, t); parent(p, t); is_leaf(p, t); child(0, p, t);
  find_region(v, 1.0, a, t); find_region(p, a, a, t); lowest_common_ancestor(v, v, t); lowest_common_ancestor(p, p, t);
  visit_leaves_to_root(t, leaves_it::include, root_it::include); visit_root_to_leaves(t, leaves_it::include, root_it::include); visit_leaves(t); visit_children(v, t); visit_ancestors(v, t);
}
void drive_graph(ugraph &g, const ai &v) {
  ugraph h(3); ugraph h2(3, 2, 1); add_vertex(g); add_vertices(3, g); add_edge(0, 1, g); remove_edge(0, g); set_edge(0, 0, 1, g); degree(0, g); degree(v, g); num_vertices(g); num_edges(g); edge_from_index(0, g);
  visit_out_edges(0, g); visit_in_edges(0, g); visit_adjacent(0, g); visit_edges(g); visit_vertices(g); all_sources(g); all_targets(g); add_edges(v, v, g); other_vertex(edge_from_index(0, g), 0, g);
}
#include "higra/accumulator/tree_accumulator.hpp"
template<class A> void drive_acc1(const tree &t, const ad &a, const ab &c, A acc) {
  accumulate_parallel(t, a, acc); accumulate_sequential(t, a, acc); propagate_sequential_and_accumulate(t, a, acc); propagate_sequential_and_accumulate(t, a, acc, c);
}
template<class A> void drive_acc2(const tree &t, const ad &a, A acc) { accumulate_parallel(t, a, acc); accumulate_sequential(t, a, acc); }
template<class A> void drive_comb(const tree &t, const ad &a, A acc) {
  accumulate_and_combine_sequential(t, a, a, acc, std::plus<double>()); accumulate_and_combine_sequential(t, a, a, acc, std::multiplies<double>()); accumulate_and_combine_sequential(t, a, a, acc, fmin_());
}
void drive_acc(const tree &t, const ad &a, const ab &c) {
  drive_acc1(t, a, c, accumulator_sum()); drive_acc1(t, a, c, accumulator_prod()); drive_acc1(t, a, c, accumulator_min()); drive_acc1(t, a, c, accumulator_max()); drive_acc1(t, a, c, accumulator_mean());
  drive_acc1(t, a, c, accumulator_counter()); drive_acc1(t, a, c, accumulator_first()); drive_acc1(t, a, c, accumulator_last()); drive_acc1(t, a, c, accumulator_argmin()); drive_acc1(t, a, c, accumulator_argmax());
  drive_comb(t, a, accumulator_sum()); drive_comb(t, a, accumulator_max());
  propagate_parallel(t, a); propagate_parallel(t, a, c); propagate_sequential(t, a, c);
}
#include "higra/attribute/tree_attribute.hpp"
#include "higra/algo/tree_monotonic_regression.hpp"
void drive_attr(const tree &t, const ad &a, index_t k) {
  attribute_area(t, a); attribute_area(t); attribute_volume(t, a, a); attribute_depth(t); attribute_height(t, a, true); attribute_extrema(t, a); attribute_extinction_value(t, a, a, true); attribute_dynamics(t, a, true);
  attribute_sibling(t, k); attribute_child_number(t); attribute_smallest_enclosing_shape(t, t); attribute_children_pair_sum_product(t, a); tree_monotonic_regression(t, a, a, "max");
}
#include "higra/algo/tree.hpp"
#include "higra/hierarchy/hierarchy_core.hpp"
#include "higra/algo/graph_core.hpp"
void drive_algo_tree(const tree &t, const ad &a, const ab &c, const ai &l, index_t v) {
  reconstruct_leaf_data(t, a, c); labelisation_horizontal_cut_from_threshold(t, a, 0.5); labelisation_hierarchy_supervertices(t, a); simplify_tree(t, c); simplify_tree(t, c, true); sub_tree(t, v); sort_hierarchy_with_altitudes(t, a);
  test_tree_isomorphism(t, t); binary_labelisation_from_markers(t, l, l); tree_2_binary_tree(t);
}
void drive_graph_core(const ugraph &g, const ad &w, const ai &l, const tree &t) {
  graph_cut_2_labelisation(g, w); labelisation_2_graph_cut(g, l); subgraph_spanning(g, l); line_graph(g); minimum_spanning_tree(g, w); bpt_canonical(g, w); quasi_flat_zone_hierarchy(g, w); saliency_map(g, t, w);
}
#include "higra/accumulator/graph_accumulator.hpp"
#include "higra/accumulator/at_accumulator.hpp"
template<class A> void drive_gacc1(const ugraph &g, const ai &i, const ad &a, A acc) { accumulate_graph_edges(g, a, acc); accumulate_graph_vertices(g, a, acc); accumulate_at(i, a, acc); }
void drive_gacc(const ugraph &g, const ai &i, const ad &a) {
  drive_gacc1(g, i, a, accumulator_sum()); drive_gacc1(g, i, a, accumulator_prod()); drive_gacc1(g, i, a, accumulator_min()); drive_gacc1(g, i, a, accumulator_max()); drive_gacc1(g, i, a, accumulator_mean());
  drive_gacc1(g, i, a, accumulator_counter()); drive_gacc1(g, i, a, accumulator_first()); drive_gacc1(g, i, a, accumulator_last()); drive_gacc1(g, i, a, accumulator_argmin()); drive_gacc1(g, i, a, accumulator_argmax());
}
#include "higra/sorting.hpp"
void drive_sort(const ad &a, const ai &b) { stable_arg_sort(a); stable_arg_sort(b); arg_sort(a); arg_sort(b); stable_arg_sort(a, std::greater<double>()); arg_sort(a, std::greater<double>()); }

#include "higra/algo/graph_weights.hpp"
void drive_weights(const ugraph &g, const ad &a, weight_functions w) { weight_graph<double>(g, a, w); }
#include "higra/algo/rag.hpp"
void drive_rag(const ugraph &g, const ad &w, const ai &l, const region_adjacency_graph &r) { make_region_adjacency_graph_from_labelisation(g, l); make_region_adjacency_graph_from_graph_cut(g, w); rag_internal::rag_back_project_weights<false>(r.vertex_map, w); rag_accumulate(r.vertex_map, w, accumulator_sum()); }
#include "higra/structure/lca_fast.hpp"
void drive_lca(const tree &t, const ai &v, const ugraph &g) {
  lca_sparse_table l1(t); l1.lca(0, 1); l1.lca(v, v); l1.lca(edge_iterator(g));
  lca_sparse_table_block l2(t), l3(t, (index_t) 4); l2.lca(0, 1); l2.lca(v, v); l2.lca(edge_iterator(g));
}
#include "higra/structure/embedding.hpp"
template<int d> void drive_grid_(const ai &shape, const point<index_t, d> &p, index_t i, const std::vector<index_t> &v) {
  embedding_grid<d> e(shape), f(v), h((const xt::xexpression<ai> &) shape); e.lin2grid(i); e.grid2lin(p); e.contains(p); e.grid2lin(v); e.contains(v); e.size(); e.shape(); e.dimension();
}
void drive_grid(const ai &shape, index_t i, const std::vector<index_t> &v, const point_1d_i &p1, const point_2d_i &p2, const point_3d_i &p3, const point_4d_i &p4) {
  drive_grid_<1>(shape, p1, i, v); drive_grid_<2>(shape, p2, i, v); drive_grid_<3>(shape, p3, i, v); drive_grid_<4>(shape, p4, i, v);
}
#include "higra/hierarchy/component_tree.hpp"
void drive_ctree(const ugraph &g, const ad &w) { component_tree_max_tree(g, w); component_tree_min_tree(g, w); }
#include "higra/algo/tree_energy_optimization.hpp"
void drive_energy(const tree &t, const ad &a) { labelisation_optimal_cut_from_energy(t, a); }
#include "higra/algo/bipartite_graph.hpp"
void drive_bip(const ugraph &g, const ai &s) { is_bipartite_graph(g); is_bipartite_graph(s, s, 3); }
#include "higra/algo/watershed.hpp"
void drive_ws(const ugraph &g, const ad &w, const ai &s) { labelisation_seeded_watershed(g, w, s, (index_t) 0); labelisation_watershed(g, w); }
