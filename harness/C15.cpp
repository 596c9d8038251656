// graph cut -> labelisation and back
#include "hx.hpp"
#include "higra/algo/graph_core.hpp"
using namespace hx;
template<class W> void one(Ctx &c, const G &q, const std::vector<W> &w) {
  hg::ugraph g = mk(q); int n = q.n, m = (int) q.e.size(); auto lab = hg::graph_cut_2_labelisation(g, arr(w)); REQ((int) lab.size() == n);
  DSU d(n); for (int e = 0; e < m; ++e) if (w[e] == 0) d.u(q.e[e].first, q.e[e].second);
  std::set<long> seen; for (int a = 0; a < n; ++a) { seen.insert((long) lab(a)); for (int b = 0; b < a; ++b) REQ((lab(a) == lab(b)) == (d.f(a) == d.f(b)), << "vertices " << a << " " << b); }
  long x = 1; for (long l : seen) REQ(l == x++, << "labels not consecutive from 1");
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(15) ? 30 : 7, 18, c.rng.coin(30)); int n = q.n, m = (int) q.e.size(); for (auto &x : q.w) x = c.rng.coin(60) ? 0 : c.rng.coin(20) ? -1e-300 : (double) c.rng.in(-2, 2); show(c, q);
  one(c, q, q.w); std::vector<int> wi(q.w.begin(), q.w.end()); one(c, q, wi);
  std::vector<int> l(n); int K = (int) c.rng.in(1, 4); for (auto &x : l) x = (int) c.rng.in(-1, K) * (c.rng.coin(10) ? 256 : 1); c.vec("labels", l); hg::ugraph g = mk(q);
  auto cut = hg::labelisation_2_graph_cut(g, arr(l)); REQ((int) cut.size() == m); for (int e = 0; e < m; ++e) REQ((cut(e) != 0) == (l[q.e[e].first] != l[q.e[e].second]), << "edge " << e);
}); }
