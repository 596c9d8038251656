// minimum spanning forest against a reference Kruskal with ties broken by index
#include "hx.hpp"
#include "higra/algo/graph_core.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(20) ? 30 : 8, 14, c.rng.coin(50)); show(c, q); hg::ugraph g = mk(q); auto r = hg::minimum_spanning_tree(g, arr(q.w));
  std::vector<int> o(q.e.size()); std::iota(o.begin(), o.end(), 0); std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return q.w[a] < q.w[b]; });
  DSU d(q.n); std::vector<long> em; for (int e : o) if (d.u(q.e[e].first, q.e[e].second)) em.push_back(e);
  REQ(tol(r.mst_edge_map) == em, << "edge map"); REQ((int) hg::num_vertices(r.mst) == q.n && hg::num_edges(r.mst) == em.size());
  for (size_t i = 0; i < em.size(); ++i) { auto x = hg::edge_from_index((index_t) i, r.mst); auto y = hg::edge_from_index(em[i], g); REQ(hg::source(x, r.mst) == hg::source(y, g) && hg::target(x, r.mst) == hg::target(y, g) && hg::index(x, r.mst) == (index_t) i); }
}); }
