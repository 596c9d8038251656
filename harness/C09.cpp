// quasi-flat zones against the connected components of every threshold
#include "hx.hpp"
#include "higra/hierarchy/hierarchy_core.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(20) ? 24 : 7, 18, c.rng.coin(80)); if (c.rng.coin(30)) for (auto &x : q.w) x = (double) c.rng.below(3) - (double) c.rng.below(2); show(c, q); hg::ugraph g = mk(q); int n = q.n, m = (int) q.e.size();
  DSU d(n); int cc = n; for (int e = 0; e < m; ++e) cc -= d.u(q.e[e].first, q.e[e].second);
  bool thrown = false;
  try {
    auto r = hg::quasi_flat_zone_hierarchy(g, arr(q.w)); auto &t = r.tree; auto &p = hg::parents(t); auto b = hg::bpt_canonical(g, arr(q.w)); auto &bp = hg::parents(b.tree); int N = (int) hg::num_vertices(t);
    REQ(cc == 1, << "accepted a graph that is not connected"); REQ((int) hg::num_leaves(t) == n && (int) r.altitudes.size() == N && (int) p.size() == N);
    int kept = 0; for (int v = 0; v < 2 * n - 1; ++v) kept += v < n || v == 2 * n - 2 || b.altitudes(v) != b.altitudes(bp(v)); REQ(N == kept, << "nodes kept");
    for (int v = 0; v < N; ++v) { REQ(v == N - 1 ? p(v) == v : p(v) > v && p(v) >= n); if (v >= n && v < N - 1) REQ(r.altitudes(v) < r.altitudes(p(v))); }
    std::set<double> ths(q.w.begin(), q.w.end()); for (double x : q.w) ths.insert(x + 0.25); ths.insert(-5);
    for (double th : ths) { DSU k(n); for (int e = 0; e < m; ++e) if (q.w[e] <= th) k.u(q.e[e].first, q.e[e].second);
      auto top = [&](int a) { int v = a, res = -1 - a; while (true) { if (v >= n && r.altitudes(v) <= th) res = v; if (p(v) == v) return res; v = (int) p(v); } };
      for (int x = 0; x < n; ++x) for (int y = 0; y < x; ++y) REQ((top(x) == top(y)) == (k.f(x) == k.f(y)), << "vertices " << x << " " << y << " threshold " << th); }
  } catch (std::runtime_error &) { thrown = true; }
  REQ(thrown == (cc > 1), << "components: " << cc); if (cc > 1) c.trivial();
}); }
