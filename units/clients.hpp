#pragma once
#include "higra/graph.hpp"
// ---- clients used to state the contract of iterator-returning functions (their loops run the real iterator code)
namespace hg { namespace hgv {
using ai = array_1d<index_t>; using ad = array_1d<double>; using ab = array_1d<bool>;
inline std::vector<index_t> visit_leaves_to_root(const tree &t, leaves_it l, root_it r) { std::vector<index_t> o; for (auto i: leaves_to_root_iterator(t, l, r)) o.push_back(i); return o; }
inline std::vector<index_t> visit_root_to_leaves(const tree &t, leaves_it l, root_it r) { std::vector<index_t> o; for (auto i: root_to_leaves_iterator(t, l, r)) o.push_back(i); return o; }
inline std::vector<index_t> visit_leaves(const tree &t) { std::vector<index_t> o; for (auto i: leaves_iterator(t)) o.push_back(i); return o; }
inline std::vector<index_t> visit_children(index_t v, const tree &t) { std::vector<index_t> o; for (auto c: children_iterator(v, t)) o.push_back(c); return o; }
inline std::vector<index_t> visit_ancestors(index_t v, const tree &t) { std::vector<index_t> o; for (auto c: ancestors_iterator(v, t)) o.push_back(c); return o; }
}
}
namespace hg { namespace hgv {
inline std::vector<std::pair<index_t, index_t>> visit_out_edges(index_t v, const ugraph &g) { std::vector<std::pair<index_t, index_t>> o; for (auto e: out_edge_iterator(v, g)) o.push_back({index(e, g), target(e, g)}); return o; }
inline std::vector<std::pair<index_t, index_t>> visit_in_edges(index_t v, const ugraph &g) { std::vector<std::pair<index_t, index_t>> o; for (auto e: in_edge_iterator(v, g)) o.push_back({index(e, g), source(e, g)}); return o; }
inline std::vector<index_t> visit_adjacent(index_t v, const ugraph &g) { std::vector<index_t> o; for (auto u: adjacent_vertex_iterator(v, g)) o.push_back(u); return o; }
inline std::vector<std::pair<index_t, index_t>> visit_edges(const ugraph &g) { std::vector<std::pair<index_t, index_t>> o; for (auto e: edge_iterator(g)) o.push_back({source(e, g), target(e, g)}); return o; }
inline std::vector<index_t> visit_vertices(const ugraph &g) { std::vector<index_t> o; for (auto u: vertex_iterator(g)) o.push_back(u); return o; }
struct fmin_ { double operator()(double x, double y) const { return (std::min)(x, y); } };
struct fmax_ { double operator()(double x, double y) const { return (std::max)(x, y); } };
inline array_1d<index_t> all_sources(const ugraph &g) { array_1d<index_t> r = sources(g); return r; }
inline array_1d<index_t> all_targets(const ugraph &g) { array_1d<index_t> r = targets(g); return r; }
}}
