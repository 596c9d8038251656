#include "higra/graph.hpp"
#include "higra/hierarchy/hierarchy_core.hpp"
#include "higra/algo/tree.hpp"
#include "higra/algo/graph_core.hpp"
#include "higra/algo/rag.hpp"
#include "higra/algo/watershed.hpp"
#include "higra/hierarchy/component_tree.hpp"
#include "higra/attribute/tree_attribute.hpp"
#include "higra/algo/tree_monotonic_regression.hpp"
#include "higra/algo/horizontal_cuts.hpp"
#include "higra/algo/bipartite_graph.hpp"
using namespace hg;
using ai = array_1d<index_t>; using ad = array_1d<double>; using ab = array_1d<bool>;
void drive(const ugraph &g, const ad &w, const tree &t, const ai &lab, const ab &crit) {
  bpt_canonical(g, w); minimum_spanning_tree(g, w); simplify_tree(t, crit); quasi_flat_zone_hierarchy(g, w);
  saliency_map(g, t, w); tree_2_binary_tree(t); graph_cut_2_labelisation(g, w); labelisation_2_graph_cut(g, lab);
  subgraph_spanning(g, lab); line_graph(g); reconstruct_leaf_data(t, w, crit); sub_tree(t, index_t(3)); sort_hierarchy_with_altitudes(t, w);
  test_tree_isomorphism(t, t); binary_labelisation_from_markers(t, lab, lab); labelisation_hierarchy_supervertices(t, w);
  labelisation_horizontal_cut_from_threshold(t, w, 0.5);
  component_tree_max_tree(g, w); component_tree_min_tree(g, w);
  accumulate_parallel(t, w, accumulator_min()); accumulate_sequential(t, w, accumulator_max()); accumulate_and_combine_sequential(t, w, w, accumulator_sum(), [](double a, double b){return a+b;});
  propagate_parallel(t, w, crit);  propagate_parallel(t, w); propagate_sequential(t, w, crit); 
}
