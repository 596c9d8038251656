// line graph and spanning sub-graph
#include "hx.hpp"
#include "higra/algo/graph_core.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(15) ? 20 : 6, c.rng.coin(15) ? 40 : 12, c.rng.coin(30)); int m = (int) q.e.size(); show(c, q); hg::ugraph g = mk(q);
  std::set<int> rem; if (c.rng.coin(20) && m > 1) { int r = (int) c.rng.below(m); hg::remove_edge(r, g); rem.insert(r); c.put("removed", r); }
  auto lg = hg::line_graph(g); REQ((int) hg::num_vertices(lg) == m); std::map<std::pair<int, int>, int> cnt; for (auto e : hg::edge_iterator(lg)) { int a = (int) hg::source(e, lg), b = (int) hg::target(e, lg); cnt[{std::min(a, b), std::max(a, b)}]++; }
  for (int i = 0; i < m; ++i) for (int j = i; j < m; ++j) { auto &a = q.e[i], &b = q.e[j]; bool sh = i != j && !rem.count(i) && !rem.count(j) && (a.first == b.first || a.first == b.second || a.second == b.first || a.second == b.second); auto it = cnt.find({i, j}); REQ((it == cnt.end() ? 0 : it->second) == (sh ? 1 : 0), << "edges " << i << " " << j); }
  std::vector<int> l; for (int i = (int) c.rng.in(0, m); i-- > 0;) { int k = (int) c.rng.below(m); if (!rem.count(k)) l.push_back(k); } c.vec("list", l); auto s = hg::subgraph_spanning(g, arr(l)); REQ((int) hg::num_vertices(s) == q.n && hg::num_edges(s) == l.size());
  for (size_t k = 0; k < l.size(); ++k) { auto e = hg::edge_from_index(k, s); long a = hg::source(e, s), b = hg::target(e, s), x = q.e[l[k]].first, y = q.e[l[k]].second; REQ(std::min(a, b) == std::min(x, y) && std::max(a, b) == std::max(x, y), << "edge " << k); }
}); }
