// region adjacency graph of a labelisation
#include "hx.hpp"
#include "higra/algo/rag.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(15) ? 30 : 8, c.rng.coin(15) ? 60 : 16, c.rng.coin(30)); int n = q.n, m = (int) q.e.size(); show(c, q); hg::ugraph g = mk(q);
  std::vector<int> l(n); int K = (int) c.rng.in(0, 4); for (auto &x : l) x = (int) c.rng.in(-1, K) * (c.rng.coin(10) ? 256 : 1); c.vec("labels", l);
  auto r = hg::make_region_adjacency_graph_from_labelisation(g, arr(l)); auto &vm = r.vertex_map; auto &em = r.edge_map; long R = (long) hg::num_vertices(r.rag), E = (long) hg::num_edges(r.rag);
  REQ((int) vm.size() == n && (int) em.size() == m); DSU d(n); for (auto &e : q.e) if (l[e.first] == l[e.second]) d.u(e.first, e.second);
  std::set<long> seen; for (int a = 0; a < n; ++a) { REQ(vm(a) >= 0 && vm(a) < R, << "vertex " << a); seen.insert(vm(a)); for (int b = 0; b < a; ++b) REQ((vm(a) == vm(b)) == (d.f(a) == d.f(b)), << "vertices " << a << " " << b); }
  REQ((long) seen.size() == R); std::map<std::pair<long, long>, long> re; for (long i = 0; i < E; ++i) { auto e = hg::edge_from_index(i, r.rag); long a = hg::source(e, r.rag), b = hg::target(e, r.rag); REQ(re.emplace(std::make_pair(std::min(a, b), std::max(a, b)), i).second, << "double edge of the rag"); }
  std::set<long> used; for (int i = 0; i < m; ++i) { long a = vm(q.e[i].first), b = vm(q.e[i].second); if (a == b) REQ(em(i) == -1, << "edge " << i); else { auto it = re.find({std::min(a, b), std::max(a, b)}); REQ(it != re.end() && em(i) == it->second, << "edge " << i); used.insert(em(i)); } }
  REQ((long) used.size() == E, << "rag edge without an edge of the graph");
  auto back = [&](const hg::array_1d<hg::index_t> &mp, long rn) { if (rn == 0) return; std::vector<double> w(rn); for (long i = 0; i < rn; ++i) w[i] = (double) (i + 1) / 2; auto o = hg::rag_back_project_weights(mp, arr(w)); REQ(o.size() == mp.size()); for (size_t i = 0; i < mp.size(); ++i) REQ(o(i) == (mp(i) == -1 ? 0.0 : w[mp(i)]), << "element " << i);
    hg::array_2d<int> w2 = hg::array_2d<int>::from_shape({(size_t) rn, 2}); for (long i = 0; i < rn; ++i) { w2(i, 0) = (int) i + 1; w2(i, 1) = -(int) i; } auto o2 = hg::rag_back_project_weights(mp, w2); REQ(o2.dimension() == 2 && o2.shape()[0] == mp.size() && o2.shape()[1] == 2); for (size_t i = 0; i < mp.size(); ++i) for (int j = 0; j < 2; ++j) REQ(o2(i, j) == (mp(i) == -1 ? 0 : w2(mp(i), j)), << "element " << i << " " << j); };
  back(vm, R); back(em, E);
}); }
