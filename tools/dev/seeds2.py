import sys; sys.path.insert(0, '/verif/tools/dev'); import mkcand
def make(id, *a):
    try:
        if a[6]: mkcand.make(id, *a)
    except AssertionError as e: print('skip', id, str(e)[:80])
I='include/higra/'
H='hierarchy/hierarchy_core.hpp'
make('c05_a','C05',I+'sorting.hpp',"""    auto stable_arg_sort(const xt::xexpression<T> &arrayx, Compare comp) {
        HIGRA_ARG_SORT(hg::stable_sort);""","""    auto stable_arg_sort(const xt::xexpression<T> &arrayx, Compare comp) {
        HIGRA_ARG_SORT(hg::sort);""",'more than 16 elements with ties','the stable variant is not stable any more','''  size_t n = 64; array_1d<double> a = xt::zeros<double>({n}); for (size_t i = 0; i < n; ++i) a(i) = (i * 7) % 3; auto s = stable_arg_sort(a);
  for (size_t i = 1; i < n; ++i) CHECK(a(s(i - 1)) < a(s(i)) || (a(s(i - 1)) == a(s(i)) && s(i - 1) < s(i)));''','#include "higra/sorting.hpp"')
make('c05_b','C05',I+'sorting.hpp',"""                } else if (comp(array(j, k), array(i, k))) {                                            \\
                    return false;                                                                       \\
                }                                                                                       \\""","""                } else if (k + 1 < dim && comp(array(j, k + 1), array(i, k + 1))) {                     \\
                    return false;                                                                       \\
                }                                                                                       \\""",'two-dimensional keys whose columns are ordered differently','lexicographic comparison reads the wrong column','''  array_2d<int> a{{1, 5}, {0, 6}, {1, 4}, {0, 7}}; auto s = arg_sort(a); index_t e[] = {1, 3, 2, 0}; for (int i = 0; i < 4; ++i) CHECK(s(i) == e[i]);''','#include "higra/sorting.hpp"')
make('c06_a','C06',I+H,"""            hg_assert(num_edge_found == num_edge_mst, "Input graph must be connected.");""","""            hg_assert(i <= (index_t) sorted_edge_indices.size() && (num_edge_found == num_edge_mst || num_edge_found + 1 == num_edge_mst),
                      "Input graph must be connected.");""",'a graph with exactly two connected components','a disconnected graph is not rejected','''  ugraph g(4); add_edge(0, 1, g); add_edge(2, 3, g); array_1d<double> w{1, 2}; bool thrown = false; try { auto r = bpt_canonical(g, w); } catch (std::exception &) { thrown = true; } CHECK(thrown);''','#include "higra/hierarchy/hierarchy_core.hpp"')
make('c07_a','C07',I+'algo/graph_core.hpp',"""        if (num_edge_found != num_edge_mst_max) {""","""        if (num_edge_found + 1 < num_edge_mst_max) {""",'a graph with exactly two connected components','the edge map of the forest has one extra meaningless entry','''  ugraph g(4); add_edge(0, 1, g); add_edge(2, 3, g); array_1d<double> w{1, 2}; auto r = minimum_spanning_tree(g, w); CHECK(r.mst_edge_map.size() == 2); CHECK(num_edges(r.mst) == 2);''','#include "higra/algo/graph_core.hpp"')
make('c07_b','C07',I+'algo/graph_core.hpp',"""        for (index_t ei: edge_indices) {
            auto e = edge_from_index(ei, graph);
            add_edge(source(e, graph), target(e, graph), subgraph);
        }""","""        index_t last = -1;
        for (index_t ei: edge_indices) {
            auto e = edge_from_index(ei, graph);
            if (ei != last)
                add_edge(source(e, graph), target(e, graph), subgraph);
            last = ei;
        }""",'an edge index given twice in a row','a repeated edge is dropped: the edges of the subgraph do not follow the list','''  ugraph g(3); add_edge(0, 1, g); add_edge(1, 2, g); array_1d<index_t> l{1, 1, 0}; auto s = subgraph_spanning(g, l); CHECK(num_edges(s) == 3); CHECK(source(edge_from_index(2, s), s) == 0);''','#include "higra/algo/graph_core.hpp"')
make('c08_a','C08',I+H,"""                    flag = flag && removed_branch(cc) && criterion(cc);""","""                    flag = flag && removed_branch(cc);""",'process_leaves, with a kept node all of whose descendants are removed below a node that is kept as well','the kept node that becomes a leaf is taken for removed','''  array_1d<index_t> p{3, 3, 4, 4, 4}; tree t(p); array_1d<bool> c{true, true, true, false, false}; auto r = simplify_tree(t, c, true); CHECK(num_vertices(r.tree) == 2); CHECK(num_leaves(r.tree) == 1); CHECK(r.node_map(0) == 3); CHECK(r.node_map(1) == 4);
  array_1d<index_t> q{4, 4, 5, 5, 6, 6, 6}; tree u(q); array_1d<bool> d{true, true, true, true, false, false, false}; auto s = simplify_tree(u, d, true); CHECK(num_vertices(s.tree) == 3); CHECK(num_leaves(s.tree) == 2);''','#include "higra/hierarchy/hierarchy_core.hpp"')
make('c09_a','C09',I+H,"""        auto qfz = simplify_tree(tree, xt::equal(altitudes, altitude_parents));""","""        auto qfz = simplify_tree(tree, xt::isclose(altitudes, altitude_parents));""",'edge weights that differ by a relative amount below 1e-5','close but different levels are merged','''  ugraph g(3); add_edge(0, 1, g); add_edge(1, 2, g); array_1d<double> w{1000000, 1000001}; auto r = quasi_flat_zone_hierarchy(g, w); CHECK(num_vertices(r.tree) == 5);''','#include "higra/hierarchy/hierarchy_core.hpp"')
make('c12_a','C12',I+'accumulator/tree_accumulator.hpp',"""            // root cannot be deleted
            output_view.set_position(root(tree));
            input_view.set_position(root(tree));
            output_view = input_view;

            for (auto i: root_to_leaves_iterator(tree, leaves_it::include, root_it::exclude)) {
                output_view.set_position(i);
                if (condition(i)) {
                    inout_view.set_position(aparents[i]);
                    output_view = inout_view;""","""            // root cannot be deleted
            output_view.set_position(root(tree));
            input_view.set_position(root(tree));
            output_view = input_view;

            for (auto i: root_to_leaves_iterator(tree, leaves_it::include, root_it::exclude)) {
                output_view.set_position(i);
                if (condition(i)) {
                    inout_view.set_position(condition(aparents[i]) && aparents[i] != root(tree) ? aparents[aparents[i]] : aparents[i]);
                    output_view = inout_view;""",'-','equivalent shortcut (control)','')
make('c12_b','C12',I+'accumulator/accumulator.hpp',"""                if (m_counter != 0) {
                    *m_storage_begin /= m_counter;""","""                if (m_counter > 1) {
                    *m_storage_begin /= m_counter;""",'-','equivalent','')
make('c13_a','C13',I+'accumulator/at_accumulator.hpp',"""                if (indices.data()[i] != invalid_index) {
                    input_view.set_position(i);""","""                if (indices.data()[i] != invalid_index && (i == 0 || map_size < 4 || indices.data()[i] != indices.data()[i - 1] || i + 1 < map_size)) {
                    input_view.set_position(i);""",'at least four positions, the last two of which have the same index','the last value is dropped','''  array_1d<index_t> ix{0, 1, 2, 2, 2}; array_1d<double> w{1, 2, 3, 4, 5}; auto r = accumulate_at(ix, w, accumulator_sum()); CHECK(r(2) == 12);
  array_1d<index_t> ix2{0, 0, -1, -1, 1, 1}; array_1d<double> w2{1, 1, 1, 1, 1, 1}; auto r2 = accumulate_at(ix2, w2, accumulator_sum()); CHECK(r2(1) == 2);''','#include "higra/accumulator/at_accumulator.hpp"')
make('c13_b','C13',I+'accumulator/graph_accumulator.hpp',"""                for (auto e: out_edge_iterator(i, graph)) {
                    input_view.set_position(e);
                    acc.accumulate(input_view.begin());
                }""","""                for (auto e: out_edge_iterator(i, graph)) {
                    if (target(e, graph) == i && out_degree(i, graph) > 1)
                        continue;
                    input_view.set_position(e);
                    acc.accumulate(input_view.begin());
                }""",'a self loop at a vertex with other edges','the self loop does not contribute','''  ugraph g(2); add_edge(0, 0, g); add_edge(0, 1, g); array_1d<double> w{3, 5}; auto r = accumulate_graph_edges(g, w, accumulator_sum()); CHECK(r(0) == 8); CHECK(r(1) == 5);''','#include "higra/accumulator/graph_accumulator.hpp"')
make('c14_a','C14',I+'algo/tree.hpp',"""                if (map(lbl) == invalid_index) {""","""                if (map(lbl) == invalid_index || (lbl == root(tree) && lbl != n && map(lbl) + 1 < current_label)) {""",'a root at altitude zero reached again after other supervertices: impossible','equivalent','')
make('c15_a','C15',I+'algo/graph_core.hpp',"""                        if (edge_weights(e) == 0) {""","""                        if (!(edge_weights(e) > 0)) {""",'an edge with a negative cut value','edges of negative cut value are followed','''  ugraph g(2); add_edge(0, 1, g); array_1d<double> w{-1}; auto l = graph_cut_2_labelisation(g, w); CHECK(l(0) != l(1));''','#include "higra/algo/graph_core.hpp"')
make('c16_a','C16',I+'algo/rag.hpp',"""                    auto lowest_edge = num_edges;
                    while (!s.empty()) {
                        auto v = s.top();
                        s.pop();

                        for (auto e: out_edge_iterator(v, graph)) {
                            auto adjv = target(e, graph);
                            if (vertex_labels[adjv] == label_region) {""","""                    auto lowest_edge = num_edges;
                    while (!s.empty()) {
                        auto v = s.top();
                        s.pop();

                        for (auto e: out_edge_iterator(v, graph)) {
                            auto adjv = target(e, graph);
                            if (vertex_labels[adjv] == label_region || (vertex_map[adjv] == num_regions && num_regions > 0)) {""",'-','equivalent','')
make('c16_b','C16',I+'algo/rag.hpp',"""                        for (auto e: out_edge_iterator(v, graph)) {
                            auto adjv = target(e, graph);
                            if (vertex_labels[adjv] == label_region) {
                                if (vertex_map[adjv] == invalid_index) {""","""                        for (auto e: out_edge_iterator(v, graph)) {
                            auto adjv = target(e, graph);
                            if (vertex_labels[adjv] == label_region) {
                                if (vertex_map[adjv] == invalid_index && adjv > start_vertex + 1 - 2 * (index_t) (v == start_vertex) - (index_t) num_vertices(graph) * (v != start_vertex + 7)) {""",'-','-','')
make('c16_c','C16',I+'algo/rag.hpp',"""                                    if (canonical_edge_indexes[num_region_adjacent] < lowest_edge) {
                                        add_edge(num_region_adjacent, num_regions, rag);
                                        edge_map(e) = num_edges;
                                        canonical_edge_indexes[num_region_adjacent] = num_edges;
                                        num_edges++;
                                    } else {
                                        edge_map(e) = canonical_edge_indexes[num_region_adjacent];
                                    }
                                }
                            }
                        }
                    }
                    num_regions++;
                };


        for (auto v: vertex_iterator(graph)) {
            if (vertex_map[v] != invalid_index)
                continue;
            explore_component(v);

        }

        return region_adjacency_graph{std::move(rag), std::move(vertex_map), std::move(edge_map)};
    }

    /**
""","""                                    if (canonical_edge_indexes[num_region_adjacent] < lowest_edge) {
                                        add_edge(num_region_adjacent, num_regions, rag);
                                        edge_map(e) = num_edges;
                                        canonical_edge_indexes[num_region_adjacent] = num_edges;
                                        num_edges++;
                                    } else {
                                        edge_map(e) = num_edges - 1;
                                    }
                                }
                            }
                        }
                    }
                    num_regions++;
                };


        for (auto v: vertex_iterator(graph)) {
            if (vertex_map[v] != invalid_index)
                continue;
            explore_component(v);

        }

        return region_adjacency_graph{std::move(rag), std::move(vertex_map), std::move(edge_map)};
    }

    /**
""",'a region that meets a first neighbour, then a second one, then the first one again','an edge is mapped to the wrong region edge','''  ugraph g(4); add_edge(0, 2, g); add_edge(1, 2, g); add_edge(2, 3, g); add_edge(0, 3, g); array_1d<index_t> l{1, 2, 3, 3}; auto r = make_region_adjacency_graph_from_labelisation(g, l); CHECK(r.edge_map(0) == r.edge_map(3)); CHECK(r.edge_map(0) != r.edge_map(1));''','#include "higra/algo/rag.hpp"') if False else None
make('c20_a','C20',I+'algo/graph_weights.hpp',"""                            auto tmp = static_cast<promoted_type>(view(i, k)) - static_cast<promoted_type>(view(j, k));
                            res += tmp * tmp;
                        }
                        return static_cast<result_value_t>(std::sqrt(res));""","""                            auto tmp = static_cast<promoted_type>(view(i, k) - view(j, k));
                            res += tmp * tmp;
                        }
                        return static_cast<result_value_t>(std::sqrt(res));""",'unsigned vertex data with several channels','the difference wraps around before promotion','''  ugraph g(2); add_edge(0, 1, g); array_2d<unsigned> a{{1, 2}, {4, 6}}; auto r = weight_graph<double>(g, a, weight_functions::L2); CHECK(r(0) == 5);''','#include "higra/algo/graph_weights.hpp"')
make('c20_b','C20',I+'algo/graph_weights.hpp',"""                        return static_cast<result_value_t>(std::abs(static_cast<promoted_type>(vertex_weights(i)) -
                                                                    static_cast<promoted_type>(vertex_weights(j))));
                    };
                    return weight_graph(graph, fun);
                }
            }
            case weight_functions::L2: {""","""                        return static_cast<result_value_t>(std::abs(vertex_weights(i) - vertex_weights(j)));
                    };
                    return weight_graph(graph, fun);
                }
            }
            case weight_functions::L2: {""",'-','ambiguous for unsigned','')
make('c20_c','C20',I+'algo/graph_weights.hpp',"""                        auto tmp = static_cast<promoted_type>(v1) - static_cast<promoted_type>(v2);
                        return static_cast<result_value_t>(tmp * tmp);""","""                        auto tmp = v1 - v2;
                        return static_cast<result_value_t>(tmp * tmp);""",'unsigned or narrow integer vertex data','the square distance is computed in the type of the data and wraps around','''  ugraph g(2); add_edge(0, 1, g); array_1d<unsigned> a{1, 4}; auto r = weight_graph<double>(g, a, weight_functions::L2_squared); CHECK(r(0) == 9); array_1d<int> b{0, 100000}; r = weight_graph<double>(g, b, weight_functions::L2_squared); CHECK(r(0) == 1e10);''','#include "higra/algo/graph_weights.hpp"')
make('c22_a','C22',I+'algo/tree.hpp',"""                return node < rhs.node;
            }""","""                return parent_rank < rhs.parent_rank || (parent_rank == rhs.parent_rank && node < rhs.node);
            }""",'a sub-tree in which a leaf is closer to its root than an internal node of smaller parent rank','nodes are numbered in breadth-first order','''  array_1d<index_t> p{7, 7, 8, 8, 9, 9, 10, 8, 10, 10, 10}; tree t(p); auto r = sub_tree(t, 10); CHECK(num_vertices(r.tree) == 11); for (int i = 0; i < 11; ++i) { CHECK(r.node_map(i) == i); CHECK(parent(i, r.tree) == p(i)); }
  array_1d<index_t> q{4, 4, 5, 6, 5, 6, 6}; tree u(q); auto s = sub_tree(u, 6); for (int i = 0; i < 7; ++i) CHECK(s.node_map(i) == i);''','#include "higra/algo/tree.hpp"')
make('c23_a','C23',I+'algo/tree.hpp',"""        if (num_vertices(t1) != num_vertices(t2) || num_leaves(t1) != num_leaves(t2))""","""        if (num_vertices(t1) != num_vertices(t2))""",'trees with the same number of nodes but different numbers of leaves','trees with different leaves are reported isomorphic','''  array_1d<index_t> p{2, 3, 4, 4, 4}, q{3, 3, 4, 4, 4}; tree t(p), u(q); CHECK(!test_tree_isomorphism(t, u)); CHECK(!test_tree_isomorphism(u, t));''','#include "higra/algo/tree.hpp"')
make('c23_b','C23',I+'algo/tree.hpp',"""            } else if (f(t1pi) != t2pfi) { // f""","""            } else if (i < num_l && f(t1pi) != t2pfi) { // f""",'two trees that differ only above their first level of internal nodes','a conflict between internal brothers is not noticed','''  array_1d<index_t> p{6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 10}, q{6, 6, 7, 7, 8, 8, 10, 9, 9, 10, 10}; tree t(p), u(q); CHECK(!test_tree_isomorphism(t, u)); CHECK(!test_tree_isomorphism(u, t));''','#include "higra/algo/tree.hpp"')
make('c24_a','C24',I+H,"""            for (index_t c = 2; c < num_c; c++) {
                new_parents(cur_par_index) = cur_par_index + 1;
                reverse_node_map(cur_par_index) = i;""","""            for (index_t c = 2; c < num_c; c++) {
                new_parents(cur_par_index) = cur_par_index + 1;
                reverse_node_map(cur_par_index) = c == 2 ? i : reverse_node_map(cur_par_index - num_l % 2);""",'-','-','')
make('c24_b','C24',I+H,"""                new_parents(node_map(child(c, i, tree))) = cur_par_index;
            }
            node_map(i) = cur_par_index;""","""                new_parents(node_map(child(c, i, tree))) = cur_par_index;
            }
            node_map(i) = num_c > 4 ? cur_par_index - 1 : cur_par_index;""",'a node other than the root with at least five children','the parent of a binarised node is attached below its top','''  array_1d<index_t> p{6, 6, 6, 6, 6, 7, 7, 7}; tree t(p); alarm(5); auto r = tree_2_binary_tree(t); r.tree.compute_children(); for (index_t i = num_leaves(r.tree); i < (index_t) num_vertices(r.tree); ++i) CHECK(num_children(i, r.tree) == 2);''','#include "higra/hierarchy/hierarchy_core.hpp"\n#include <unistd.h>')
make('c25_a','C25',I+'algo/tree.hpp',"""                if (attr(parent(i, tree)) == 2) {
                    attr(i) = 2;
                } else {
                    attr(i) = 1;
                }""","""                if (attr(parent(i, tree)) == 2 || (attr(parent(i, tree)) == 3 && parent(i, tree) == root(tree) && !is_leaf(i, tree) && attr(root(tree)) == 2)) {
                    attr(i) = 2;
                } else {
                    attr(i) = 1;
                }""",'-','equivalent','')
make('c25_b','C25',I+'algo/tree.hpp',"""        if (attr(root(tree)) == 0) { // both markers are empty
            attr(root(tree)) = 1;
        }
""","""""",'a tree reduced to one node without marker','the label is not binary','''  array_1d<index_t> p{0}; tree t(p); array_1d<int> o{0}, b{0}; auto r = binary_labelisation_from_markers(t, o, b); CHECK((int) r(0) == 0);''','#include "higra/algo/tree.hpp"')
make('c27_a','C27',I+'attribute/tree_attribute.hpp',"""                index_t j = (i + skip) % nchs;
                if (j < 0) { // stupid c modulo
                    j += nchs;
                }
""","""                index_t j = i + skip;
                if (j >= nchs) {
                    j -= nchs;
                }
                if (j < 0) { // stupid c modulo
                    j += nchs;
                }
""",'a skip larger than the number of children','out of range sibling','''  array_1d<index_t> p{2, 2, 2}; tree t(p); auto s = attribute_sibling(t, 4); CHECK(s(0) == 0); CHECK(s(1) == 1); s = attribute_sibling(t, 5); CHECK(s(0) == 1);''','#include "higra/attribute/tree_attribute.hpp"')
make('c28_a','C28',I+'attribute/tree_attribute.hpp',"""            auto max_depth = xt::empty_like(altitudes);
            xt::noalias(xt::view(max_depth, xt::range(0, num_leaves(tree)))) =
                    xt::view(xt::index_view(altitudes, tree.parents()), xt::range(0, num_leaves(tree)));
            for (auto n: leaves_to_root_iterator(tree, leaves_it::exclude)) {
                max_depth(n) = std::numeric_limits<value_type>::lowest();""","""            auto max_depth = xt::empty_like(altitudes);
            xt::noalias(xt::view(max_depth, xt::range(0, num_leaves(tree)))) =
                    xt::view(xt::index_view(altitudes, tree.parents()), xt::range(0, num_leaves(tree)));
            for (auto n: leaves_to_root_iterator(tree, leaves_it::exclude)) {
                max_depth(n) = (std::numeric_limits<value_type>::min)();""",'decreasing negative floating point altitudes','the smallest positive number is taken for the lowest one','''  array_1d<index_t> p{3, 3, 4, 4, 4}; tree t(p); array_1d<double> a{0, 0, 0, -3, -5}; auto h = attribute_height(t, a, false); CHECK(h(4) == 2); CHECK(h(3) == 2);''','#include "higra/attribute/tree_attribute.hpp"')
make('c28_b','C28',I+'attribute/tree_attribute.hpp',"""                        if (max_depth(c) > max_depth(n)) {
                            max_depth(n) = max_depth(c);
                            ref_son(n) = c;""","""                        if (max_depth(c) >= max_depth(n)) {
                            max_depth(n) = max_depth(c);
                            ref_son(n) = c;""",'two extrema of the same depth below one node of a decreasing hierarchy','ties between extrema are broken in favour of the last child','''  array_1d<index_t> p{4, 4, 5, 5, 6, 6, 6}; tree t(p); array_1d<double> a{0, 0, 0, 0, 5, 5, 1}; array_1d<double> at{1, 1, 1, 1, 2, 3, 6}; auto e = attribute_extinction_value(t, a, at, false); CHECK(e(0) == 6); CHECK(e(2) == 3);''','#include "higra/attribute/tree_attribute.hpp"')
make('c29_a','C29',I+'algo/tree_monotonic_regression.hpp',"""                                                     [](const value_type &x1, const value_type &x2) {
                                                         return std::max(x1, x2);""","""                                                     [](const double &x1, const double &x2) {
                                                         return (value_type) std::fmax((float) x1, (float) x2);""",'altitudes that are not representable in single precision','precision loss','''  array_1d<index_t> p{2, 2, 2}; tree t(p); array_1d<double> a{0.1, 0.2, 16777217.0}; auto r = tree_monotonic_regression(t, a, "max"); CHECK(r(2) == 16777217.0);''','#include "higra/algo/tree_monotonic_regression.hpp"')
make('c30_a','C30',I+'algo/graph_core.hpp',"""                    if (!(e1.source == e2.source && e1.source < v)) {""","""                    if (!(e1.source == e2.source && e1.source < v && j == i + 1)) {""",'three parallel edges','two parallel edges that are not consecutive around the vertex are linked twice','''  ugraph g(2); add_edge(0, 1, g); add_edge(0, 1, g); add_edge(0, 1, g); auto l = line_graph(g); CHECK(num_edges(l) == 3);''','#include "higra/algo/graph_core.hpp"')
TH=I+'structure/tree_graph.hpp'
make('c02_c','C02',TH,"""                    hg_assert(parent_v > v, "nodes are not in a topological order");""","""                    hg_assert(parent_v > v || parent_v < (index_t) num_leaves(), "nodes are not in a topological order");""",'-','-','')
make('c12_c','C12',I+'accumulator/accumulator.hpp',"""            return std::numeric_limits<value_type>::lowest();""","""            return (std::numeric_limits<value_type>::min)();""",'negative floating point values accumulated by max','the neutral value of max is the smallest positive number','''  array_1d<index_t> p{2, 2, 2}; tree t(p); array_1d<double> a{-1, -2, -3}; auto r = accumulate_parallel(t, a, accumulator_max()); CHECK(r(2) == -1);''','#include "higra/accumulator/tree_accumulator.hpp"')
