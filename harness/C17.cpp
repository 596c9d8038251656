// seeded watershed: every level of the weights against plain graph searches
#include "hx.hpp"
#include "higra/algo/watershed.hpp"
using namespace hx;
template<class L> void one(Ctx &c, const G &q, const hg::ugraph &g, const std::vector<long> &seeds, long bg) {
  hg::array_1d<L> s = hg::array_1d<L>::from_shape({seeds.size()}); for (size_t i = 0; i < seeds.size(); ++i) s(i) = (L) seeds[i];
  auto r = bg == 0 && c.rng.coin() ? hg::labelisation_seeded_watershed(g, arr(q.w), s) : hg::labelisation_seeded_watershed(g, arr(q.w), s, (L) bg);
  REQ((int) r.size() == q.n, << "one label per vertex"); std::vector<long> lab = tol(r); int n = q.n;
  for (int v = 0; v < n; ++v) if (seeds[v] != bg) REQ(lab[v] == seeds[v], << "seed " << v << " relabelled " << lab[v]);
  std::vector<double> lv = q.w; std::sort(lv.begin(), lv.end()); lv.erase(std::unique(lv.begin(), lv.end()), lv.end());
  std::vector<std::vector<char>> ok(n, std::vector<char>(n, 1)); std::vector<char> reach(n, 0);   // ok[v][t]: seed t stays a closest seed of v
  for (int v = 0; v < n; ++v) if (seeds[v] != bg) { reach[v] = 1; for (int t = 0; t < n; ++t) if (t != v) ok[v][t] = 0; }
  for (double l : lv) { DSU a(n), b(n); for (size_t i = 0; i < q.e.size(); ++i) if (q.w[i] <= l) { a.u(q.e[i].first, q.e[i].second); if (lab[q.e[i].first] == lab[q.e[i].second]) b.u(q.e[i].first, q.e[i].second); }
    for (int v = 0; v < n; ++v) { bool any = false; for (int t = 0; t < n; ++t) if (seeds[t] != bg && a.f(t) == a.f(v)) any = true; if (!any) continue; reach[v] = 1; for (int t = 0; t < n; ++t) if (b.f(t) != b.f(v)) ok[v][t] = 0; } }
  for (int v = 0; v < n; ++v) { if (!reach[v]) { REQ(lab[v] == bg, << "vertex " << v << " labelled " << lab[v] << " though no seed can be reached"); continue; } REQ(lab[v] != bg, << "vertex " << v << " left in the background");
    bool f = false; for (int t = 0; t < n; ++t) if (seeds[t] != bg && seeds[t] == lab[v] && ok[v][t]) f = true; REQ(f, << "vertex " << v << " labelled " << lab[v] << ": no closest seed of this label reached inside its region"); }
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(20) ? 24 : 8, c.rng.coin(20) ? 40 : 14, c.rng.coin(60)); show(c, q); hg::ugraph g = mk(q);
  long bg = c.rng.coin(70) ? 0 : c.rng.in(1, 3); int dens = c.rng.coin() ? 20 : 60, hi = c.rng.coin(80) ? 4 : 90; std::vector<long> s(q.n); for (auto &x : s) x = c.rng.coin(dens) ? c.rng.in(0, hi) : bg; c.vec("seeds", s); c.put("background", bg);
  switch (c.rng.below(4)) { case 0: one<double>(c, q, g, s, bg); break; case 1: one<unsigned char>(c, q, g, s, bg); break; case 2: one<int>(c, q, g, s, bg); break; default: one<hg::index_t>(c, q, g, s, bg); }
}); }
