// canonical binary partition tree against its definition (and a reference Kruskal, ties broken by index)
#include "hx.hpp"
#include "higra/hierarchy/hierarchy_core.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(20) ? 30 : 7, 18, c.rng.coin(70)); show(c, q); hg::ugraph g = mk(q); int n = q.n, m = (int) q.e.size();
  std::vector<int> o(m); std::iota(o.begin(), o.end(), 0); std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return q.w[a] < q.w[b]; });
  DSU d(n); std::vector<long> em; for (int e : o) if (d.u(q.e[e].first, q.e[e].second)) em.push_back(e);
  bool conn = (int) em.size() == n - 1, thrown = false;
  try {
    auto r = hg::bpt_canonical(g, arr(q.w)); auto &t = r.tree; auto &p = hg::parents(t);
    REQ(conn, << "accepted a graph that is not connected"); REQ(tol(r.mst_edge_map) == em, << "edge map");
    REQ((int) hg::num_vertices(t) == 2 * n - 1 && (int) hg::num_leaves(t) == n); REQ((int) r.altitudes.size() == 2 * n - 1);
    std::vector<std::set<int>> reg(2 * n - 1); for (int v = 0; v < n; ++v) { reg[v] = {v}; REQ(r.altitudes(v) == 0); }
    for (int v = 0; v < 2 * n - 2; ++v) { REQ(p(v) > v && p(v) >= n && p(v) < 2 * n - 1); for (int x : reg[v]) reg[p(v)].insert(x); }
    REQ(p(2 * n - 2) == 2 * n - 2);
    for (int k = 0; k < n - 1; ++k) { std::vector<int> ch; for (int v = 0; v < n + k; ++v) if (p(v) == n + k) ch.push_back(v);
      REQ(ch.size() == 2); REQ(r.altitudes(n + k) == q.w[em[k]]); REQ(p(n + k) == n + k || r.altitudes(n + k) <= r.altitudes(p(n + k)));
      auto cross = [&](int e) { int a = q.e[e].first, b = q.e[e].second; return (reg[ch[0]].count(a) && reg[ch[1]].count(b)) || (reg[ch[0]].count(b) && reg[ch[1]].count(a)); };
      REQ(cross(em[k])); for (int e = 0; e < m; ++e) if (cross(e)) REQ(q.w[e] > q.w[em[k]] || (q.w[e] == q.w[em[k]] && e >= em[k])); }
  } catch (std::runtime_error &) { thrown = true; }
  REQ(thrown == !conn, << "connected: " << conn); if (!conn) c.trivial();
}); }
